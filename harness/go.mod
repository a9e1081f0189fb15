module verifharness

go 1.23

require (
	github.com/danomagnum/gologix v0.0.0
	pgregory.net/rapid v1.3.0
)

require github.com/npat-efault/crc16 v0.0.0-20161013170008-4128ccbe47c3 // indirect

replace github.com/danomagnum/gologix => /repo
