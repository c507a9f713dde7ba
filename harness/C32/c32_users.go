package ssh

import (
	"errors"
	"io"
	"strings"

	"github.com/LogicalOverflow/music-sync/zzverif"
)

// ZZOs_File is an open file.
type ZZOs_File struct {
	name   string
	closed bool
}

func (f *ZZOs_File) Read(b []byte) (int, error) {
	if f.closed {
		return 0, errors.New("closed")
	}
	zzReading = f.name
	return 0, io.EOF
}
func (f *ZZOs_File) Close() error { f.closed = true; return nil }

// zzMember is a member of a json object.
type zzMember struct{ key, value string }

type zzUser struct {
	name    string
	members []zzMember
}

var (
	ZZOs_Open func(string) (*ZZOs_File, error)

	zzReading, zzWant string
	zzUsers           []zzUser
	zzGood            bool
	zzEmpty           bool // the broken file is empty
)

// ZZJson_Decoder decodes the users of the file as encoding/json is documented to.
type ZZJson_Decoder struct {
	f      io.Reader
	strict bool
}

func ZZJson_NewDecoder(f io.Reader) *ZZJson_Decoder { return &ZZJson_Decoder{f: f} }

func (d *ZZJson_Decoder) DisallowUnknownFields() { d.strict = true }
func (d *ZZJson_Decoder) UseNumber()             {}

func (d *ZZJson_Decoder) Decode(v interface{}) error {
	zzReading = ""
	if _, err := d.f.Read(nil); err != io.EOF {
		return err
	}
	return zzDecode(v, d.strict)
}

func ZZJson_Unmarshal(b []byte, v interface{}) error { return zzDecode(v, false) }

// zzField is the field a member is stored in: one with this name, or else one with this name but for its case.
func zzField(key string) string {
	keys := zzverif.JSONKeys(UserAuth{})
	for i := 0; i < len(keys); i += 2 {
		if keys[i+1] == key {
			return keys[i]
		}
	}
	for i := 0; i < len(keys); i += 2 {
		if strings.EqualFold(keys[i+1], key) {
			return keys[i]
		}
	}
	return ""
}

func zzDecode(v interface{}, strict bool) error {
	if zzReading != zzWant {
		return errors.New("another file")
	}
	p, ok := v.(*map[string]UserAuth)
	zzverif.Assume(ok) // other targets are not modelled
	if *p == nil {
		*p = map[string]UserAuth{}
	}
	if !zzGood && zzEmpty {
		return io.EOF
	}
	for _, u := range zzUsers {
		auth := UserAuth{}
		for _, m := range u.members {
			switch zzField(m.key) {
			case "Password":
				auth.Password = m.value
			case "PubKey":
				auth.PubKey = []byte(m.value)
			case "":
				if strict {
					return errors.New("unknown field")
				}
			}
		}
		(*p)[u.name] = auth
	}
	if !zzGood {
		if len(zzUsers) == 0 {
			return io.ErrUnexpectedEOF
		}
		return errors.New("not users")
	}
	return nil
}

// ZZ_C32_Users: any users whose objects have any members, a file that may be missing or broken after some of them.
func ZZ_C32_Users() {
	name := zzverif.StringN("file", 2)
	zzWant = name
	there := zzverif.Bool("there")
	zzGood, zzEmpty = zzverif.Bool("good"), zzverif.Bool("empty")
	ZZOs_Open = func(p string) (*ZZOs_File, error) {
		if p == name && !there {
			return nil, errors.New("no file")
		}
		return &ZZOs_File{name: p}, nil
	}
	zzUsers = nil
	var want []UserAuth
	for i := zzverif.Choose("users", zzverif.Bound("users")+1); 0 < i; i-- {
		u, w := zzUser{name: zzverif.String("user", 2)}, UserAuth{}
		keys := []string{"password", "pubKey"}
		if i <= zzverif.Bound("any members") {
			keys = [][]string{{}, {"password"}, {"pubKey"}, {"password", "pubKey"}, {"pubkey", "comment"}, {"comment", "Password"}, {"password", "password"}}[zzverif.Choose("members", 7)]
		}
		for _, key := range keys {
			m := zzMember{key: key, value: zzverif.String("value", 1)}
			u.members = append(u.members, m)
			switch m.key {
			case "password", "Password":
				w.Password = m.value
			case "pubKey", "pubkey":
				w.PubKey = []byte(m.value)
			}
		}
		zzUsers, want = append(zzUsers, u), append(want, w)
	}
	users, err := ReadUsersFile(name)
	if !there || !zzGood {
		zzverif.Assert(err != nil, "a users file that cannot be read gives an error")
		zzverif.Reach("error")
		return
	}
	zzverif.Assert(err == nil, "a well-formed users file is read")
	n := 0
	for i, u := range zzUsers {
		last := true // the last user of a name counts
		for _, o := range zzUsers[i+1:] {
			if o.name == u.name {
				last = false
			}
		}
		if !last {
			continue
		}
		n++
		got, ok := users[u.name]
		zzverif.Assert(ok && got.Password == want[i].Password && string(got.PubKey) == string(want[i].PubKey), "the users are those of the file")
	}
	zzverif.Assert(len(users) == n, "there are no users but those of the file")
	zzverif.Reach("users")
}
