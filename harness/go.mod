// SPDX-License-Identifier: Apache-2.0

module verif/harness

go 1.23.0

require (
	cloud.google.com/go v0.121.0 // indirect
	github.com/google/go-cmp v0.7.0
	github.com/substrait-io/substrait-protobuf/go v0.85.0
	google.golang.org/protobuf v1.36.6
)

require (
	github.com/cockroachdb/apd/v3 v3.2.1
	github.com/substrait-io/substrait-go/v8 v8.0.0
)

require (
	github.com/antlr4-go/antlr/v4 v4.13.1 // indirect
	github.com/creasty/defaults v1.8.0
	github.com/goccy/go-yaml v1.17.1
	github.com/google/uuid v1.6.0
	github.com/substrait-io/substrait v0.87.0
	golang.org/x/exp v0.0.0-20250408133849-7e4ce0ab07d0 // indirect
)

replace github.com/substrait-io/substrait-go/v8 => /repo
