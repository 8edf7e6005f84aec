module verif/driver

go 1.22

require github.com/rdimitrov/go-tuf-metadata v0.0.0

replace github.com/rdimitrov/go-tuf-metadata => /repo

require (
	github.com/go-logr/stdr v1.2.2
	github.com/secure-systems-lab/go-securesystemslib v0.8.0
	github.com/sigstore/sigstore v1.8.0
	github.com/sirupsen/logrus v1.9.3
	github.com/spf13/cobra v1.8.0
	github.com/stretchr/testify v1.8.4
	golang.org/x/crypto v0.18.0
	golang.org/x/exp v0.0.0-20230321023759-10a507213a29
	golang.org/x/sys v0.16.0
)

require (
	github.com/davecgh/go-spew v1.1.1 // indirect
	github.com/go-logr/logr v1.3.0 // indirect
	github.com/google/go-containerregistry v0.17.0 // indirect
	github.com/inconshreveable/mousetrap v1.1.0 // indirect
	github.com/kr/pretty v0.3.1 // indirect
	github.com/letsencrypt/boulder v0.0.0-20230907030200-6d76a0f91e1e // indirect
	github.com/opencontainers/go-digest v1.0.0 // indirect
	github.com/pmezard/go-difflib v1.0.0 // indirect
	github.com/spf13/pflag v1.0.5 // indirect
	github.com/titanous/rocacheck v0.0.0-20171023193734-afe73141d399 // indirect
	golang.org/x/term v0.16.0 // indirect
	google.golang.org/grpc v1.56.3 // indirect
	gopkg.in/go-jose/go-jose.v2 v2.6.1 // indirect
	gopkg.in/yaml.v3 v3.0.1 // indirect
)
