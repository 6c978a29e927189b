package startup_test

import (
	"context"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/hashicorp/go-hclog"
	"github.com/spf13/viper"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/peer"

	"github.com/netauth/netauth/internal/crypto"
	_ "github.com/netauth/netauth/internal/crypto/bcrypt"
	_ "github.com/netauth/netauth/internal/crypto/nocrypto"
	"github.com/netauth/netauth/internal/db"
	_ "github.com/netauth/netauth/internal/db/bitcask"
	_ "github.com/netauth/netauth/internal/db/filesystem"
	"github.com/netauth/netauth/internal/rpc2"
	"github.com/netauth/netauth/internal/startup"
	"github.com/netauth/netauth/internal/token"
	_ "github.com/netauth/netauth/internal/token/jwt"
	"github.com/netauth/netauth/internal/tree"
	_ "github.com/netauth/netauth/internal/tree/hooks"

	types "github.com/netauth/protocol"
	pb "github.com/netauth/protocol/v2"
)

// world is a server over a scratch directory.
type world struct {
	*rpc2.Server
	t    *testing.T
	dir  string
	db   *db.DB
	tree *tree.Manager
	tok  token.Service
}

var called bool

func setup(t *testing.T) *world {
	w := &world{t: t, dir: t.TempDir()}
	viper.Set("core.home", w.dir)
	viper.Set("core.conf", w.dir)
	viper.Set("db.backend", "filesystem")
	viper.Set("db.filesystem.path", "fs")
	viper.Set("crypto.backend", "nocrypto")
	viper.Set("crypto.bcrypt.cost", 4)
	viper.Set("token.backend", "jwt-rsa")
	viper.Set("token.jwt.generate", true)
	viper.Set("token.jwt.bits", 1024)
	viper.Set("server.readonly", false)
	os.MkdirAll(filepath.Join(w.dir, "fs"), 0755)
	os.MkdirAll(filepath.Join(w.dir, "keys"), 0755)
	if !called {
		l := hclog.NewNullLogger()
		crypto.SetParentLogger(l)
		db.SetParentLogger(l)
		token.SetParentLogger(l)
		tree.SetParentLogger(l)
		startup.DoCallbacks()
		called = true
	}
	w.start("")
	return w
}

// start starts the server; boot is the bootstrap option.
func (w *world) start(boot string) {
	var err error
	l := hclog.NewNullLogger()
	if w.db, err = db.New(viper.GetString("db.backend")); err != nil {
		w.t.Fatal(err)
	}
	c, err := crypto.New(viper.GetString("crypto.backend"))
	if err != nil {
		w.t.Fatal(err)
	}
	if w.tree, err = tree.New(w.db, c, l); err != nil {
		w.t.Fatal(err)
	}
	if err = w.db.EventUpdateAll(); err != nil {
		w.t.Fatal(err)
	}
	if boot == "" {
		boot = "root"
	}
	if err = w.tree.Bootstrap(boot, "rootpw"); err != nil {
		w.t.Fatal(err)
	}
	w.tree.DisableBootstrap()
	token.SetLifetime(10 * time.Minute)
	if w.tok, err = token.New(viper.GetString("token.backend")); err != nil {
		w.t.Fatal(err)
	}
	w.Server = rpc2.New(rpc2.Refs{TokenService: w.tok, Tree: w.tree}, l)
}

func (w *world) restart() { w.start("") }

// as is a request context with a token for an entity.
func (w *world) as(id, secret string) context.Context {
	r, err := w.AuthGetToken(w.ctx(""), &pb.AuthRequest{Entity: &types.Entity{ID: &id}, Secret: &secret})
	if err != nil {
		w.t.Fatalf("no token for %s: %v", id, err)
	}
	return w.ctx(r.GetToken())
}

func (w *world) ctx(tok string) context.Context {
	md := metadata.Pairs("client-name", "demo", "service-name", "demo")
	if tok != "" {
		md.Append("authorization", tok)
	}
	return peer.NewContext(metadata.NewIncomingContext(context.Background(), md), &peer.Peer{})
}

func (w *world) root() context.Context { return w.as("root", "rootpw") }

func (w *world) must(_ interface{}, err error) {
	w.t.Helper()
	if err != nil {
		w.t.Fatal(err)
	}
}

func (w *world) entity(id string) *types.Entity {
	r, err := w.EntityInfo(w.ctx(""), &pb.EntityRequest{Entity: &types.Entity{ID: &id}})
	if err != nil {
		w.t.Fatal(err)
	}
	return r.GetEntities()[0]
}

func (w *world) mkEntity(id, secret string) {
	w.t.Helper()
	w.must(w.EntityCreate(w.root(), &pb.EntityRequest{Entity: &types.Entity{ID: &id, Number: proto.Int32(-1), Secret: &secret}}))
}

func (w *world) mkGroup(name, managedBy string) {
	w.t.Helper()
	w.must(w.GroupCreate(w.root(), &pb.GroupRequest{Group: &types.Group{Name: &name, Number: proto.Int32(-1), ManagedBy: &managedBy}}))
}

func (w *world) group(name string) *types.Group {
	w.t.Helper()
	r, err := w.GroupInfo(w.ctx(""), &pb.GroupRequest{Group: &types.Group{Name: &name}})
	if err != nil {
		w.t.Fatal(err)
	}
	return r.GetGroups()[0]
}

func (w *world) rule(g, target string, a pb.RuleAction) error {
	_, err := w.GroupUpdateRules(w.root(), &pb.GroupRulesRequest{Group: &types.Group{Name: &g}, Target: &types.Group{Name: &target}, RuleAction: &a})
	return err
}

func (w *world) add(e string, groups ...string) {
	w.t.Helper()
	w.must(w.GroupAddMember(w.root(), &pb.EntityRequest{Entity: &types.Entity{ID: &e, Meta: &types.EntityMeta{Groups: groups}}}))
}

func (w *world) members(g string) []string {
	w.t.Helper()
	r, err := w.GroupMembers(w.ctx(""), &pb.GroupRequest{Group: &types.Group{Name: &g}})
	if err != nil {
		w.t.Fatal(err)
	}
	var out []string
	for _, e := range r.GetEntities() {
		out = append(out, e.GetID())
	}
	return out
}

func (w *world) groups(e string) []string {
	w.t.Helper()
	r, err := w.EntityGroups(w.ctx(""), &pb.EntityRequest{Entity: &types.Entity{ID: &e}})
	if err != nil {
		w.t.Fatal(err)
	}
	var out []string
	for _, g := range r.GetGroups() {
		out = append(out, g.GetName())
	}
	return out
}
