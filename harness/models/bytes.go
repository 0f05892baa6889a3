package models

import (
	"encoding/binary"
	"io"
)

//model:internal/bytealg.IndexByteString
func IndexByteString(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

//model:internal/bytealg.IndexByte
func IndexByte(b []byte, c byte) int {
	for i := 0; i < len(b); i++ {
		if b[i] == c {
			return i
		}
	}
	return -1
}

//model:internal/bytealg.LastIndexByteString
func LastIndexByteString(s string, c byte) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == c {
			return i
		}
	}
	return -1
}

//model:internal/bytealg.CountString
func CountString(s string, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}

//model:internal/bytealg.Count
func Count(b []byte, c byte) int { return CountString(string(b), c) }

//model:strings.Index
func Index(s, sub string) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return i
		}
	}
	return -1
}

//model:strings.Count
func SCount(s, sub string) int {
	if len(sub) == 0 {
		n := 0
		for range s {
			n++
		}
		return n + 1
	}
	n := 0
	for i := 0; i+len(sub) <= len(s); {
		if s[i:i+len(sub)] == sub {
			n++
			i += len(sub)
		} else {
			i++
		}
	}
	return n
}

//model:bytes.Equal
func Equal(a, b []byte) bool { return string(a) == string(b) }

//model:internal/bytealg.Equal
func AlgEqual(a, b []byte) bool { return string(a) == string(b) }

//model:internal/bytealg.Compare
func Compare(a, b []byte) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			if a[i] < b[i] {
				return -1
			}
			return 1
		}
	}
	return len(a) - len(b)
}

// Words is implemented by a harness random source that hands out whole words.
type Words interface{ Word() uint64 }

//model:encoding/binary.Read
func BinaryRead(r io.Reader, order binary.ByteOrder, data any) error {
	n := 0
	switch v := data.(type) {
	case *uint64:
		if w, ok := r.(Words); ok {
			*v = w.Word()
			return nil
		}
		n = 8
	case *[]byte:
		n = len(*v)
	case *[]rune:
		n = 4 * len(*v)
	case []byte:
		n = len(v)
	case []rune:
		n = 4 * len(v)
	case *int64:
		n = 8
	case *uint32, *int32:
		n = 4
	case *uint16:
		n = 2
	case *uint8:
		n = 1
	default:
		Unmodelled("binary.Read of another type")
	}
	b := make([]byte, n)
	if _, err := io.ReadFull(r, b); err != nil {
		return err
	}
	switch v := data.(type) {
	case *uint64:
		*v = order.Uint64(b)
	case *[]byte:
		copy(*v, b)
	case *[]rune:
		for i := range *v {
			(*v)[i] = rune(order.Uint32(b[4*i:]))
		}
	case []byte:
		copy(v, b)
	case []rune:
		for i := range v {
			v[i] = rune(order.Uint32(b[4*i:]))
		}
	case *int64:
		*v = int64(order.Uint64(b))
	case *uint32:
		*v = order.Uint32(b)
	case *int32:
		*v = int32(order.Uint32(b))
	case *uint16:
		*v = order.Uint16(b)
	case *uint8:
		*v = b[0]
	}
	return nil
}

//model:internal/stringslite.Index
func StringsliteIndex(s, sub string) int { return Index(s, sub) }

//model:internal/bytealg.IndexString
func BytealgIndexString(s, sub string) int { return Index(s, sub) }

//model:internal/bytealg.Index
func BytealgIndex(s, sub []byte) int { return Index(string(s), string(sub)) }

//model:internal/bytealg.CompareString
func BytealgCompareString(a, b string) int {
	if a < b {
		return -1
	}
	if a > b {
		return 1
	}
	return 0
}
