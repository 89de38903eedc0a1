module verif/analyzer

go 1.26.0

require golang.org/x/tools v0.52.0

require (
	golang.org/x/mod v0.42.0 // indirect
	golang.org/x/sync v0.24.0 // indirect
	modernc.org/golex v1.1.0
	modernc.org/strutil v1.2.0
	modernc.org/wl v1.0.0
)
