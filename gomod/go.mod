module github.com/golang/freetype

go 1.26.0

require golang.org/x/image v0.47.0
