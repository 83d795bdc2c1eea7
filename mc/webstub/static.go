package web

import (
	"embed"
	"net/http"
)

var IndexHTML []byte
var e embed.FS

func BlocklyFS() http.FileSystem    { return http.FS(e) }
func JavascriptFS() http.FileSystem { return http.FS(e) }
func IconsFS() http.FileSystem      { return http.FS(e) }
