package disk

import (
	"github.com/sa6mwa/krypto431"
	"verif/harness/sim/faultos"
	"verif/harness/sim/survey"
	"verif/sym"
)

const most = 24 // operations of one save, at most

// over saves k over what is there.
func fails(existing, link bool, p faultos.Plan) {
	begin()
	if existing {
		at := path
		if link {
			at = "/data/real"
			faultos.Link(at, path)
		}
		faultos.Put(at, []byte("something else"), 0o600)
	}
	k := store("k", 1, 1)
	if existing {
		k = store("k", 1, 1, withOverwrite(true))
	}
	was := store("w", 0, 0)
	was.Keys, was.Messages = append(was.Keys, k.Keys...), append(was.Messages, k.Messages...)
	faultos.Arm(p)
	err := k.Save()
	ops, failed := faultos.Ops(), faultos.Failed()
	faultos.Disarm()
	sym.Assert(ops <= most, "the bound on operations is large enough")
	switch failed {
	case "open", "write", "close", "sync", "rename", "truncate":
		sym.Assert(err != nil, "a failed "+failed+" is reported")
		sym.Reach("failed")
	}
	if err == nil {
		l, err := load(path, pfk(1))
		sym.Assert(err == nil, "a saved store can be loaded")
		sym.Assert(same(k, l), "a saved store is complete")
		sym.Reach("saved")
	}
	sym.Assert(same(k, was), "saving does not change the instance")
}

func C19_NewFile() {
	fails(false, false, faultos.Plan{Fail: sym.Int("fail", 0, most), Crash: -1, Short: sym.Bool("short")})
}

func C19_Existing() {
	fails(true, false, faultos.Plan{Fail: sym.Int("fail", 0, most), Crash: -1, Short: sym.Bool("short")})
}

func C19_Link() {
	fails(true, true, faultos.Plan{Fail: sym.Int("fail", 0, most), Crash: -1, Short: sym.Bool("short")})
}

func C19_Sticky() {
	fails(sym.Fork(sym.Bool("existing")), false, faultos.Plan{Fail: sym.Int("fail", 0, most), Sticky: true, Crash: -1, Short: sym.Bool("short")})
}

func C19_DiskFull() {
	fails(sym.Fork(sym.Bool("existing")), false, faultos.Plan{Fail: sym.Int("write", 0, most), Sticky: true, NoSpace: true, Crash: -1, Short: sym.Bool("short")})
}

// C19_Two has two unrelated failures.
func C19_Two() {
	i := sym.Int("fail", 0, most)
	j := sym.Int("also", 0, most)
	sym.Assume(i < j)
	fails(sym.Fork(sym.Bool("existing")), false, faultos.Plan{Fail: i, Also: j, Crash: -1, Short: sym.Bool("short")})
}

// C19_NoHome has no home directory to put the file in.
func C19_NoHome() {
	begin()
	k := store("k", 1, 0)
	k.SetPersistence("~/sub/store")
	home := []string{"", "/home/op", "/root"}[sym.Choice("home", 3)]
	faultos.Home(home)
	err := k.Save()
	if home == "" {
		sym.Assert(err != nil, "an unresolvable file is reported")
		sym.Assert(len(faultos.Paths()) == 0, "nothing is written")
		sym.Reach("nohome")
		return
	}
	sym.Assert(err == nil, "saves below the home directory")
	_, ok := faultos.Get(home + "/sub/store")
	sym.Assert(ok, "the configured file is written")
	l, err := load("~/sub/store", pfk(1))
	sym.Assert(err == nil && same(k, l), "and loads from there")
	sym.Reach("home")
}

// C19_Leave saves over a file with or without leave to do so, whether or not
// there is somebody to ask, and whatever the answer.
func C19_Leave() {
	begin()
	leave, interactive, someone := sym.Fork(sym.Bool("leave")), sym.Fork(sym.Bool("interactive")), sym.Fork(sym.Bool("terminal"))
	k := store("k", 1, 1, krypto431.WithOverwritePersistenceIfExists(leave), krypto431.WithInteractive(interactive))
	faultos.Put(path, []byte("something else"), 0o600)
	if sym.Fork(sym.Bool("another store")) {
		o := store("o", 1, 0, withOverwrite(true))
		sym.Assert(o.Save() == nil, "saves")
	}
	faultos.Terminal(someone)
	answer := sym.Choice("answer", 3)
	declined := false
	survey.Answer = func(p survey.Prompt, response any) error {
		if answer == 2 {
			return survey.ErrNoAnswer
		}
		declined = answer == 1
		*response.(*bool) = !declined
		return nil
	}
	was, _ := faultos.Get(path)
	err := k.Save()
	faultos.Terminal(terminal)
	if err != nil || declined {
		now, _ := faultos.Get(path)
		sym.Assert(string(now) == string(was), "the file is left as it was")
		sym.Reach("left")
		return
	}
	l, err := load(path, pfk(1))
	sym.Assert(err == nil && same(k, l), "a saved store is complete")
	sym.Reach("saved")
}
