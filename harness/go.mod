module verif

go 1.26.0

require (
	code.cloudfoundry.org/bytefmt v0.0.0-20230406175530-3579ae0680eb
	github.com/anishathalye/porcupine v1.3.1
	github.com/anivanovic/gotit v0.0.0
	github.com/avast/retry-go v3.0.0+incompatible
	github.com/bits-and-blooms/bitset v1.2.2
	github.com/davecgh/go-spew v1.1.2-0.20180830191138-d8f796af33cc
	github.com/fsnotify/fsnotify v1.7.0
	github.com/google/uuid v1.4.0
	github.com/gosuri/uilive v0.0.4
	github.com/hashicorp/hcl v1.0.0
	github.com/inconshreveable/mousetrap v1.1.0
	github.com/jpillora/backoff v1.0.0
	github.com/magiconair/properties v1.8.10
	github.com/mattn/go-isatty v0.0.17
	github.com/mitchellh/mapstructure v1.5.0
	github.com/pelletier/go-toml/v2 v2.1.1
	github.com/pmezard/go-difflib v1.0.1-0.20181226105442-5d4384ee4fb2
	github.com/sagikazarmark/locafero v0.4.0
	github.com/sagikazarmark/slog-shim v0.1.0
	github.com/sourcegraph/conc v0.3.0
	github.com/spf13/afero v1.11.0
	github.com/spf13/cast v1.6.0
	github.com/spf13/cobra v1.6.1
	github.com/spf13/pflag v1.0.10
	github.com/spf13/viper v1.18.2
	github.com/stretchr/objx v0.5.3
	github.com/stretchr/testify v1.8.4
	github.com/subosito/gotenv v1.6.0
	github.com/tevino/abool/v2 v2.0.1
	go.uber.org/atomic v1.9.0
	go.uber.org/multierr v1.9.0
	go.uber.org/zap v1.21.0
	golang.org/x/exp v0.0.0-20260312153236-7ab1446f8b90
	golang.org/x/sys v0.15.0
	golang.org/x/text v0.14.0
	gopkg.in/ini.v1 v1.67.0
	gopkg.in/yaml.v3 v3.0.1
)

replace github.com/anivanovic/gotit => /repo
