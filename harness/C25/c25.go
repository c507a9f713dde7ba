package ssh

import (
	"errors"
	"github.com/LogicalOverflow/music-sync/zzverif"
	"github.com/gliderlabs/ssh"
	"net"
)

type zzCtx struct {
	ssh.Context
	user string
}

func (c zzCtx) User() string         { return c.user }
func (c zzCtx) RemoteAddr() net.Addr { return &net.TCPAddr{} }
func (c zzCtx) LocalAddr() net.Addr  { return &net.TCPAddr{} }

// zzKey stands for a parsed public key.
type zzKey struct {
	ssh.PublicKey
	wire string
}

func (k zzKey) Type() string    { return "zz" }
func (k zzKey) Marshal() []byte { return []byte(k.wire) }

// a key is valid if it begins with 'K'
func zzValid(b string) bool { return 0 < len(b) && b[0] == 'K' }

type zzUser struct{ name, password, key string }

func zzServerFor(users []zzUser) *ssh.Server {
	ZZSsh_ParsePublicKey = func(b []byte) (ssh.PublicKey, error) {
		if !zzValid(string(b)) {
			return nil, errors.New("zz: no key")
		}
		return zzKey{wire: string(b)}, nil
	}
	ZZSsh_Handle = func(ssh.Handler) {}
	svr := &ssh.Server{}
	started := 0
	ZZSsh_ListenAndServe = func(addr string, h ssh.Handler, opts ...ssh.Option) error {
		started++
		zzverif.Assert(addr == ":8000", "the server listens at the configured address")
		for _, o := range opts {
			zzverif.Assert(o(svr) == nil, "options apply")
		}
		return nil
	}
	m := make(map[string]UserAuth)
	for _, u := range users {
		m[u.name] = UserAuth{Password: u.password, PubKey: []byte(u.key)}
	}
	StartSSH(":8000", m)
	zzverif.Assert(started == 1, "the control interface is started")
	zzverif.Assert(svr.PasswordHandler != nil && svr.PublicKeyHandler != nil, "clients have to authenticate")
	zzverif.Assert(svr.KeyboardInteractiveHandler == nil, "there is no other way to authenticate")
	return svr
}

func zzUsers(pw, key int) []zzUser {
	us := make([]zzUser, zzverif.Choose("users", zzverif.Bound("users")+1))
	for i := range us {
		us[i].name = zzverif.String("name", zzverif.Bound("name"))
		us[i].password, us[i].key = zzverif.String("password", pw), zzverif.String("key", key)
		for j := 0; j < i; j++ {
			zzverif.Assume(us[j].name != us[i].name)
		}
	}
	return us
}

// ZZ_C25_Password: every user table and every password login.
func ZZ_C25_Password() {
	us := zzUsers(zzverif.Bound("len"), 1)
	svr := zzServerFor(us)
	user, pw := zzverif.String("user", zzverif.Bound("name")), zzverif.String("attempt", zzverif.Bound("len"))
	want := false
	for _, u := range us {
		if u.name == user && u.password == pw && pw != "" {
			want = true
		}
	}
	got := svr.PasswordHandler(zzCtx{user: user}, pw)
	zzverif.Assert(got == want, "a password login succeeds exactly with the password of that user")
	if got {
		zzverif.Reach("admitted")
	} else {
		zzverif.Reach("rejected")
	}
}

// ZZ_C25_Key: every user table and every key login.
func ZZ_C25_Key() {
	us := zzUsers(1, zzverif.Bound("len"))
	svr := zzServerFor(us)
	user := zzverif.String("user", zzverif.Bound("name"))
	var key ssh.PublicKey
	wire := ""
	if zzverif.Choose("offered", 2) == 1 {
		wire = zzverif.String("attempt", zzverif.Bound("len"))
		zzverif.Assume(zzValid(wire))
		key = zzKey{wire: wire}
	}
	want := false
	for _, u := range us {
		if u.name == user && wire != "" && u.key == wire {
			want = true
		}
	}
	got := svr.PublicKeyHandler(zzCtx{user: user}, key)
	zzverif.Assert(got == want, "a key login succeeds exactly with the key of that user")
	if got {
		zzverif.Reach("admitted")
	} else {
		zzverif.Reach("rejected")
	}
}
