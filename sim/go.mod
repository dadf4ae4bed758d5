module verifsim

go 1.27

require (
	github.com/urban-wombat/gotables v0.0.0
	gopkg.in/yaml.v3 v3.0.1
)

replace github.com/urban-wombat/gotables => /repo
