module htmltree

go 1.26.0

require golang.org/x/net v0.61.0

replace golang.org/x/net => /root/go/pkg/mod/golang.org/x/net@v0.61.0
