#!/bin/bash
# mkdemo.sh DIR PKG : writes DIR/demo.sh which runs DIR/demo_test.go.txt as a test of /repo's package PKG
cat > "$1/demo.sh" <<EOF
#!/bin/bash
# runs demo_test.go.txt (beside this file) as a test of ./$2; cwd is the repository
here=\$(cd "\$(dirname "\$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.23.12/bin:\$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off CGO_ENABLED=1 GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
go test -vet=off -count=1 -timeout 200s -run 'TestSeeded' -overlay <(echo "{\"Replace\":{\"\$PWD/$2/zz_seeded_test.go\":\"\$here/demo_test.go.txt\"}}") ./$2
EOF
chmod +x "$1/demo.sh"
