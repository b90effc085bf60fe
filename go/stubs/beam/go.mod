module github.com/apache/beam/sdks/v2

go 1.22
