module vsim

go 1.23

require (
	fast-ksw v0.0.0
	golang.org/x/crypto v0.0.0-20220331220935-ae2d96664a29
)

require golang.org/x/sys v0.0.0-20210615035016-665e8c7367d1 // indirect

replace fast-ksw => /repo
