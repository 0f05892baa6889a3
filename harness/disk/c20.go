package disk

import (
	"bytes"

	"verif/harness/sim/faultos"
	"verif/sym"
)

// dies lets the process die, or an operation fail, while a store is replaced.
func dies(link bool, p faultos.Plan) bool {
	begin()
	at := path
	if link {
		at = "/data/real"
		faultos.Link(at, path)
		faultos.Put(at, nil, 0o600)
	}
	old := store("old", 1, 1, withOverwrite(true))
	sym.Assert(old.Save() == nil, "saves the first time")
	before, _ := faultos.Get(at)
	k, err := load(path, pfk(1))
	sym.Assert(err == nil, "loads")
	k.Keys = append(k.Keys, key(k, "new"))
	k.Messages = nil
	faultos.Arm(p)
	_, died := faultos.Process(func() { err = k.Save() })
	ops := faultos.Ops()
	faultos.Disarm()
	sym.Assert(ops <= most, "the bound on operations is large enough")
	after, ok := faultos.Get(at)
	sym.Assert(ok, "the file is there")
	if !bytes.Equal(before, after) {
		l, err := load(path, pfk(1))
		sym.Assert(err == nil, "the file is either the previous or the new store")
		sym.Assert(same(k, l), "the file is either the complete previous or the complete new store")
		sym.Reach("new")
	} else {
		sym.Reach("old")
	}
	if died {
		return true
	} else if err == nil {
		sym.Assert(!bytes.Equal(before, after), "a reported save took place")
	} else {
		sym.Reach("opt:failed")
	}
	return false
}

func C20_Crash() {
	if dies(false, faultos.Plan{Fail: -1, Crash: sym.Int("crash", 0, most), Half: sym.Bool("half")}) {
		sym.Reach("died")
	}
}

func C20_CrashLink() {
	if dies(true, faultos.Plan{Fail: -1, Crash: sym.Int("crash", 0, most), Half: sym.Bool("half")}) {
		sym.Reach("died")
	}
}

func C20_Fail() {
	dies(sym.Fork(sym.Bool("link")), faultos.Plan{Fail: sym.Int("fail", 0, most), Crash: -1, Short: sym.Bool("short")})
}

func C20_Sticky() {
	dies(false, faultos.Plan{Fail: sym.Int("fail", 0, most), Sticky: true, Crash: -1, Short: sym.Bool("short")})
}

func C20_DiskFull() {
	dies(false, faultos.Plan{Fail: sym.Int("write", 0, most), Sticky: true, NoSpace: true, Crash: -1, Short: sym.Bool("short")})
}

// C20_FailAndCrash has a failure and dies later.
func C20_FailAndCrash() {
	i := sym.Int("fail", 0, most)
	j := sym.Int("crash", 0, most)
	sym.Assume(i < j)
	if dies(false, faultos.Plan{Fail: i, Crash: j, Short: sym.Bool("short"), Half: sym.Bool("half")}) {
		sym.Reach("died")
	}
}
