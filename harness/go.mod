module verif/harness

go 1.15

require (
	github.com/mashmb/1pass/1pass-core v1.3.1
	github.com/mashmb/1pass/1pass-parse v1.3.1
	github.com/mashmb/1pass/1pass-up v1.1.2
	gopkg.in/yaml.v2 v2.4.0
)

replace (
	github.com/mashmb/1pass/1pass-core => /repo/1pass-core
	github.com/mashmb/1pass/1pass-parse => /repo/1pass-parse
	github.com/mashmb/1pass/1pass-up => /repo/1pass-up
)
