package zzdemo

// a small repository in memory, made with the library's API, and helpers

import (
	"crypto/ed25519"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"io"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/config"
	"github.com/rdimitrov/go-tuf-metadata/metadata/updater"
	"github.com/sigstore/sigstore/pkg/signature"
)

type key struct {
	priv ed25519.PrivateKey
	pub  *metadata.Key
	id   string
	sg   signature.Signer
}

func mkKey(t *testing.T, name string) *key {
	t.Helper()
	seed := sha256.Sum256([]byte(name))
	priv := ed25519.NewKeyFromSeed(seed[:])
	pub, err := metadata.KeyFromPublicKey(priv.Public())
	ok(t, err)
	sg, err := signature.LoadED25519Signer(priv)
	ok(t, err)
	return &key{priv, pub, pub.ID(), sg}
}

func ok(t *testing.T, err error) {
	t.Helper()
	if err != nil {
		t.Fatal(err)
	}
}

var future = time.Now().UTC().Add(1000 * time.Hour).Truncate(time.Second)
var past = time.Now().UTC().Add(-1000 * time.Hour).Truncate(time.Second)

// repo holds the metadata that is being edited and the files that are served
type repo struct {
	t       *testing.T
	k       map[string]*key // role -> key
	root    *metadata.Metadata[metadata.RootType]
	ts      *metadata.Metadata[metadata.TimestampType]
	sn      *metadata.Metadata[metadata.SnapshotType]
	tg      map[string]*metadata.Metadata[metadata.TargetsType]
	files   map[string][]byte // URL path -> content
	targets map[string][]byte
	log     []string
	lens    map[string]int64
	hook    func(path string, max int64) ([]byte, error, bool)
}

func newRepo(t *testing.T, consistent bool) *repo {
	r := &repo{t: t, k: map[string]*key{}, tg: map[string]*metadata.Metadata[metadata.TargetsType]{}, files: map[string][]byte{}, targets: map[string][]byte{}, lens: map[string]int64{}}
	r.root = metadata.Root(future)
	r.root.Signed.ConsistentSnapshot = consistent
	for _, role := range []string{"root", "timestamp", "snapshot", "targets"} {
		r.k[role] = mkKey(t, role)
		ok(t, r.root.Signed.AddKey(r.k[role].pub, role))
	}
	r.ts = metadata.Timestamp(future)
	r.sn = metadata.Snapshot(future)
	r.tg["targets"] = metadata.Targets(future)
	return r
}

// delegate adds a delegated role with its own key
func (r *repo) delegate(parent, name string, paths []string, terminating bool) {
	k := mkKey(r.t, "role "+name)
	r.k[name] = k
	p := r.tg[parent]
	if p.Signed.Delegations == nil {
		p.Signed.Delegations = &metadata.Delegations{Keys: map[string]*metadata.Key{}, Roles: []metadata.DelegatedRole{}}
	}
	p.Signed.Delegations.Keys[k.id] = k.pub
	p.Signed.Delegations.Roles = append(p.Signed.Delegations.Roles, metadata.DelegatedRole{Name: name, KeyIDs: []string{k.id}, Threshold: 1, Terminating: terminating, Paths: paths})
	if r.tg[name] == nil {
		r.tg[name] = metadata.Targets(future)
		r.sn.Signed.Meta[name+".json"] = metadata.MetaFile(1)
	}
}

// target adds a target file to a role
func (r *repo) target(role, path string, data []byte) *metadata.TargetFiles {
	tf, err := metadata.TargetFile().FromBytes(path, data, "sha256")
	ok(r.t, err)
	r.tg[role].Signed.Targets[path] = tf
	r.targets[path] = data
	return tf
}

func enc[T metadata.Roles](t *testing.T, m *metadata.Metadata[T], ks ...*key) []byte {
	t.Helper()
	m.ClearSignatures()
	for _, k := range ks {
		_, err := m.Sign(k.sg)
		ok(t, err)
	}
	b, err := m.ToBytes(false)
	ok(t, err)
	return b
}

func (r *repo) rootBytes() []byte { return enc(r.t, r.root, r.k["root"]) }

// publish signs everything and serves it, under plain and versioned names
func (r *repo) publish() {
	put := func(name string, v int64, b []byte) {
		r.files[fmt.Sprintf("/m/%d.%s.json", v, url.QueryEscape(name))] = b
		if name != "root" {
			r.files["/m/"+url.QueryEscape(name)+".json"] = b
		}
	}
	put("root", r.root.Signed.Version, r.rootBytes())
	for n, m := range r.tg {
		put(n, m.Signed.Version, enc(r.t, m, r.k[n]))
		r.sn.Signed.Meta[n+".json"].Version = m.Signed.Version
	}
	put("snapshot", r.sn.Signed.Version, enc(r.t, r.sn, r.k["snapshot"]))
	r.ts.Signed.Meta["snapshot.json"].Version = r.sn.Signed.Version
	put("timestamp", r.ts.Signed.Version, enc(r.t, r.ts, r.k["timestamp"]))
	for p, b := range r.targets {
		r.files["/t/"+p] = b
	}
}

func (r *repo) DownloadFile(u string, max int64, _ time.Duration) ([]byte, error) {
	p := strings.TrimPrefix(u, "http://repo.test")
	r.log = append(r.log, p)
	r.lens[p] = max
	if r.hook != nil {
		if b, err, done := r.hook(p, max); done {
			return b, err
		}
	}
	b, found := r.files[p]
	if !found {
		return nil, metadata.ErrDownloadHTTP{StatusCode: 404, URL: u}
	}
	if int64(len(b)) > max {
		return nil, metadata.ErrDownloadLengthMismatch{Msg: "too long " + u}
	}
	return append([]byte{}, b...), nil
}

func (r *repo) cfg(root []byte, dir string) *config.UpdaterConfig {
	c, err := config.New("http://repo.test/m", root)
	ok(r.t, err)
	c.RemoteTargetsURL = "http://repo.test/t"
	c.LocalMetadataDir = filepath.Join(dir, "meta")
	c.LocalTargetsDir = filepath.Join(dir, "targets")
	c.PrefixTargetsWithHash = false
	c.Fetcher = r
	return c
}

func (r *repo) client(root []byte, dir string) *updater.Updater {
	r.t.Helper()
	u, err := updater.New(r.cfg(root, dir))
	ok(r.t, err)
	return u
}

func read(t *testing.T, p string) []byte {
	t.Helper()
	b, err := os.ReadFile(p)
	ok(t, err)
	return b
}

var _ = json.Marshal
var _ = io.EOF
