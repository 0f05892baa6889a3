// Package store: keys, instances and their settings.
package store

import (
	"time"

	"github.com/sa6mwa/krypto431"
	"verif/sym"
)

// expiring gives a key that expires an arbitrary time from now (to the
// nanosecond).
func expiring(seconds int) *krypto431.Key {
	now := time.Now()
	s, n := sym.Int("seconds", -seconds, seconds), sym.Int("nanos", 0, 999999999)
	k := krypto431.New()
	key := &krypto431.Key{}
	key.SetInstance(&k)
	key.Expires.Time = time.Unix(now.Unix()+int64(s), int64(n))
	return key
}

// The clock may be read anywhere between two readings of the harness, so
// exactness is stated with both (they coincide under the engine).
func C29_Expired() {
	key := expiring(1 << 33)
	a := time.Now()
	got := key.IsExpired()
	b := time.Now()
	sym.Assert(sym.Implies(got, b.After(key.Expires.Time)), "expired only after the expiry")
	sym.Assert(sym.Or(got, !a.After(key.Expires.Time)), "expired after the expiry")
	if got {
		sym.Reach("expired")
	} else {
		sym.Reach("not expired")
	}
}

func valid(key *krypto431.Key, d time.Duration, f func() bool) bool {
	a := time.Now()
	got := f()
	b := time.Now()
	sym.Assert(sym.Implies(got, a.Add(d).Before(key.Expires.Time)), "valid only if the time ends before the expiry")
	sym.Assert(sym.Or(got, !b.Add(d).Before(key.Expires.Time)), "valid if the time ends before the expiry")
	return got
}

func C29_Valid() {
	key := expiring(1 << 33)
	d := time.Duration(sym.Int("d", -1<<62, 1<<62))
	if valid(key, d, func() bool { return key.IsValid(d) }) {
		sym.Reach("valid")
	} else {
		sym.Reach("not valid")
	}
}

// C29_Extreme: times that overflow when they are added or subtracted.
func C29_Extreme() {
	key := expiring(1 << 33)
	if sym.Choice("never", 2) == 1 {
		key.Expires.Time = time.Unix(1<<40+int64(sym.Int("later", 0, 1<<33)), 0)
	}
	d := []time.Duration{1<<63 - 1, -1 << 63, 1<<63 - 2, 1 << 62, 0}[sym.Choice("d", 5)]
	valid(key, d, func() bool { return key.IsValid(d) })
	sym.Reach("done")
}

func C29_Days() {
	key := expiring(1 << 33)
	day := 24 * time.Hour
	switch sym.Choice("which", 4) {
	case 0:
		valid(key, day, key.IsValidOneDay)
	case 1:
		valid(key, 30*day, key.IsValidOneMonth)
	case 2:
		valid(key, 365*day, key.IsValidOneYear)
	default:
		d := time.Duration(sym.Int("days", -40000, 40000)) * day
		valid(key, d, func() bool { return key.IsValid(d) })
	}
	sym.Reach("done")
}

// A key valid for a longer time is valid for every shorter one, and an expired
// key is valid for no time.
func C29_Shorter() {
	key := expiring(1 << 33)
	year, month, day := key.IsValidOneYear(), key.IsValidOneMonth(), key.IsValidOneDay()
	sym.Assert(sym.Implies(year, month), "valid a year, valid a month")
	sym.Assert(sym.Implies(month, day), "valid a month, valid a day")
	if key.IsExpired() {
		sym.Reach("expired")
		sym.Assert(!sym.Or(day, key.IsValid(0)), "an expired key is valid for no time")
	} else if day {
		sym.Reach("valid")
	}
}
