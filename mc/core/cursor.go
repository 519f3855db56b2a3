package core

import (
	"encoding/binary"
	"os"
	"syscall"
)

// The cursor is a memory-mapped file that always holds the choice vector being executed, so that the parent can
// attribute a crash or a hang of the process.
var cursor []byte

const cursorSize = 1 << 19

// OpenCursor maps the cursor file.
func OpenCursor(path string) error {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		return err
	}
	defer f.Close()
	if err := f.Truncate(cursorSize); err != nil {
		return err
	}
	cursor, err = syscall.Mmap(int(f.Fd()), 0, cursorSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	return err
}

func cursorSet(ch []int) {
	if cursor == nil {
		return
	}
	n := len(ch)
	if n > cursorSize/4-4 {
		n = cursorSize/4 - 4
	}
	binary.LittleEndian.PutUint32(cursor[0:], uint32(n))
	// a progress counter lets the parent tell a hang from a slow shard
	binary.LittleEndian.PutUint32(cursor[4:], binary.LittleEndian.Uint32(cursor[4:])+1)
	binary.LittleEndian.PutUint32(cursor[8+4*(n-1):], uint32(ch[n-1]))
}

// ReadCursor returns the choice vector and progress counter of a cursor file.
func ReadCursor(path string) (choices []int, progress uint32) {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 8 {
		return nil, 0
	}
	n := int(binary.LittleEndian.Uint32(b))
	progress = binary.LittleEndian.Uint32(b[4:])
	for i := 0; i < n && 12+4*i <= len(b); i++ {
		choices = append(choices, int(binary.LittleEndian.Uint32(b[8+4*i:])))
	}
	return
}
