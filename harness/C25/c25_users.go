package ssh

import (
	"errors"
	"io"

	"github.com/LogicalOverflow/music-sync/zzverif"
)

// ZZOs_File is an open file.
type ZZOs_File struct{ closed bool }

func (f *ZZOs_File) Read(b []byte) (int, error) {
	zzverif.Assert(!f.closed, "a file is read before it is closed")
	return 0, io.EOF
}
func (f *ZZOs_File) Close() error { f.closed = true; return nil }

var (
	ZZOs_Open func(string) (*ZZOs_File, error)

	zzUsers []string // names, passwords and keys alternate
	zzGood  bool
)

// ZZJson_Decoder knows the users of the file; it may fail after some of them.
type ZZJson_Decoder struct{ f io.Reader }

func ZZJson_NewDecoder(f io.Reader) *ZZJson_Decoder { return &ZZJson_Decoder{f} }

func (d *ZZJson_Decoder) Decode(v interface{}) error {
	d.f.Read(nil)
	return ZZJson_Unmarshal(nil, v)
}

func ZZJson_Unmarshal(b []byte, v interface{}) error {
	p := v.(*map[string]UserAuth)
	if *p == nil {
		*p = map[string]UserAuth{}
	}
	for i := 0; i < len(zzUsers); i += 3 {
		(*p)[zzUsers[i]] = UserAuth{Password: zzUsers[i+1], PubKey: []byte(zzUsers[i+2])}
	}
	if !zzGood {
		return errors.New("not users")
	}
	return nil
}

// ZZ_C25_UsersFile: any users, the file may be missing or broken after some of them.
func ZZ_C25_UsersFile() {
	name := zzverif.StringN("file", 2)
	there := zzverif.Bool("there")
	zzGood = zzverif.Bool("good")
	ZZOs_Open = func(p string) (*ZZOs_File, error) {
		zzverif.Assert(p == name, "the users are read from the file given")
		if !there {
			return nil, errors.New("no file")
		}
		return &ZZOs_File{}, nil
	}
	zzUsers = nil
	for i := zzverif.Choose("users", zzverif.Bound("users")+1); 0 < i; i-- {
		zzUsers = append(zzUsers, zzverif.StringN("user", 1+i), zzverif.String("password", 1), zzverif.String("key", 1))
	}
	users, err := ReadUsersFile(name)
	if !there || !zzGood {
		zzverif.Assert(err != nil, "a users file that cannot be read gives an error")
		zzverif.Reach("error")
		return
	}
	zzverif.Assert(err == nil && len(users) == len(zzUsers)/3, "the users are those of the file")
	for i := 0; i < len(zzUsers); i += 3 {
		u, ok := users[zzUsers[i]]
		zzverif.Assert(ok && u.Password == zzUsers[i+1] && string(u.PubKey) == zzUsers[i+2], "the users are those of the file")
	}
	zzverif.Reach("users")
}
