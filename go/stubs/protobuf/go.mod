module google.golang.org/protobuf

go 1.22
