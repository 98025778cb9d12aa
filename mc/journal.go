package mc

import (
	"encoding/binary"
	"os"
	"sync/atomic"
	"syscall"
)

// Journal records what is being executed right now in a memory-mapped file, so
// that a crash or hang of the worker can be attributed to a history.
type Journal struct {
	mem  []byte
	beat atomic.Int64
}

const journalSize = 1 << 19

func OpenJournal(path string) (*Journal, error) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if err := f.Truncate(journalSize); err != nil {
		return nil, err
	}
	m, err := syscall.Mmap(int(f.Fd()), 0, journalSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &Journal{mem: m}, nil
}

func (j *Journal) Beat() { j.beat.Add(1) }

func (j *Journal) SetJob(i int) {
	j.beat.Add(1)
	if j.mem != nil {
		j.mem[0] = 0
		binary.LittleEndian.PutUint32(j.mem[4:], uint32(i))
	}
}

func (j *Journal) Space(h []int) {
	j.beat.Add(1)
	if j.mem == nil {
		return
	}
	j.mem[0] = 0
	n := len(h)
	if n > (journalSize-16)/2 {
		n = (journalSize - 16) / 2
	}
	for i := 0; i < n; i++ {
		binary.LittleEndian.PutUint16(j.mem[16+2*i:], uint16(int16(h[i])))
	}
	binary.LittleEndian.PutUint32(j.mem[8:], uint32(n))
	j.mem[0] = 1
}

// Push records op as the n-th (and, for now, last) operation of the history.
func (j *Journal) Push(op, n int) {
	j.beat.Add(1)
	if j.mem == nil || n > (journalSize-16)/2 {
		return
	}
	j.mem[0] = 1
	binary.LittleEndian.PutUint16(j.mem[16+2*(n-1):], uint16(int16(op)))
	binary.LittleEndian.PutUint32(j.mem[8:], uint32(n))
}

func (j *Journal) Case(i int) {
	j.beat.Add(1)
	if j.mem == nil {
		return
	}
	binary.LittleEndian.PutUint32(j.mem[8:], uint32(i))
	j.mem[0] = 2
}

// ReadJournal decodes a journal: the job index and the failure skeleton.
func ReadJournal(b []byte) (job int, kind byte, history []int, cse int) {
	if len(b) < journalSize {
		return
	}
	job = int(binary.LittleEndian.Uint32(b[4:]))
	kind = b[0]
	n := int(binary.LittleEndian.Uint32(b[8:]))
	switch kind {
	case 1:
		for i := 0; i < n; i++ {
			history = append(history, int(int16(binary.LittleEndian.Uint16(b[16+2*i:]))))
		}
	case 2:
		cse = n
	}
	return
}

func (j *Journal) Mem() []byte { return j.mem }
