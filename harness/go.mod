module verif

go 1.25.0

require (
	github.com/andybalholm/brotli v1.2.2
	github.com/bodgit/plumbing v1.3.0
	github.com/bodgit/windows v1.0.1
	github.com/hashicorp/golang-lru/v2 v2.0.7
	github.com/klauspost/compress v1.19.0
	github.com/pierrec/lz4/v4 v4.1.27
	github.com/spf13/afero v1.15.0
	github.com/stangelandcl/ppmd v0.1.1
	github.com/stretchr/testify v1.11.1
	github.com/ulikunitz/xz v0.5.15
	go4.org v0.0.0-20260112195520-a5071408f32f
	golang.org/x/sync v0.22.0
	golang.org/x/text v0.40.0
)

require (
	github.com/davecgh/go-spew v1.1.1 // indirect
	github.com/pmezard/go-difflib v1.0.0 // indirect
	github.com/stretchr/objx v0.5.2 // indirect
	gopkg.in/yaml.v3 v3.0.1 // indirect
)

require github.com/bodgit/sevenzip v0.0.0

replace github.com/bodgit/sevenzip => /repo
