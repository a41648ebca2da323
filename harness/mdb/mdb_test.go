// Package mdb checks the document database wrapper against the driver it
// wraps, each talking to a stand-in for the server that notes every command
// and answers by script.
package mdb

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/pojol/braid/3rd/mgo"
	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/mongo"
	"go.mongodb.org/mongo-driver/mongo/options"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// server answers the wire protocol of the database.
type server struct {
	l    net.Listener
	mu   sync.Mutex
	sent []string
	ids  []string // identities made up by the driver
	plan []reply
}

// reply is what the server makes of the next commands.
type reply struct {
	Kind string `json:"kind"` // ok, err, write (a write error), concern
	N    int    `json:"n"`
}

var oid = regexp.MustCompile(`\{"\$oid":"[0-9a-f]{24}"\}`)

func listen() *server {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s := &server{l: l}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go s.serve(c)
		}
	}()
	return s
}

func (s *server) addr() string { return "mongodb://" + s.l.Addr().String() + "/" }

func (s *server) reset(plan []reply) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.sent, s.plan, s.ids = nil, append([]reply(nil), plan...), nil
}

func (s *server) take() ([]string, []string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	r, i := s.sent, s.ids
	s.sent, s.ids = nil, nil
	return r, i
}

func cstr(b []byte) (string, []byte) {
	i := bytes.IndexByte(b, 0)
	return string(b[:i]), b[i+1:]
}

func (s *server) serve(c net.Conn) {
	defer c.Close()
	for {
		var hd [16]byte
		if _, err := io.ReadFull(c, hd[:]); err != nil {
			return
		}
		n, id, op := binary.LittleEndian.Uint32(hd[0:]), hd[4:8], binary.LittleEndian.Uint32(hd[12:])
		body := make([]byte, n-16)
		if _, err := io.ReadFull(c, body); err != nil {
			return
		}
		var cmd bson.D
		var out bytes.Buffer
		head := func(opcode uint32) {
			out.Write([]byte{0, 0, 0, 0, 1, 0, 0, 0})
			out.Write(id)
			binary.Write(&out, binary.LittleEndian, opcode)
		}
		quiet := false
		switch op {
		case 2004: // the greeting
			_, rest := cstr(body[4:])
			bson.Unmarshal(rest[8:], &cmd)
			head(1)
			out.Write(make([]byte, 16))
			binary.Write(&out, binary.LittleEndian, uint32(1))
		case 2013:
			flags := binary.LittleEndian.Uint32(body)
			quiet = flags&2 != 0
			rest := body[4:]
			for len(rest) > 0 {
				kind := rest[0]
				sz := int(binary.LittleEndian.Uint32(rest[1:]))
				if kind == 0 {
					var d bson.D
					bson.Unmarshal(rest[1:1+sz], &d)
					cmd = append(d, cmd...)
				} else {
					name, docs := cstr(rest[5 : 1+sz])
					var arr bson.A
					for len(docs) > 0 {
						k := int(binary.LittleEndian.Uint32(docs))
						var d bson.D
						bson.Unmarshal(docs[:k], &d)
						arr = append(arr, d)
						docs = docs[k:]
					}
					cmd = append(cmd, bson.E{Key: name, Value: arr})
				}
				rest = rest[1+sz:]
			}
			head(2013)
			out.Write([]byte{0, 0, 0, 0, 0})
		default:
			return
		}
		ans := s.answer(cmd)
		if quiet {
			continue
		}
		b, err := bson.Marshal(ans)
		if err != nil {
			panic(err)
		}
		out.Write(b)
		r := out.Bytes()
		binary.LittleEndian.PutUint32(r, uint32(len(r)))
		if _, err := c.Write(r); err != nil {
			return
		}
	}
}

func field(d bson.D, k string) any {
	for _, e := range d {
		if e.Key == k {
			return e.Value
		}
	}
	return nil
}

func (s *server) answer(cmd bson.D) bson.D {
	ok := bson.E{Key: "ok", Value: 1.0}
	name := cmd[0].Key
	switch strings.ToLower(name) {
	case "hello", "ismaster":
		return bson.D{{Key: "ismaster", Value: true}, {Key: "maxBsonObjectSize", Value: int32(16 << 20)}, {Key: "maxMessageSizeBytes", Value: int32(48000000)},
			{Key: "maxWriteBatchSize", Value: int32(100000)}, {Key: "minWireVersion", Value: int32(0)}, {Key: "maxWireVersion", Value: int32(17)}, {Key: "localTime", Value: time.Now()}, ok}
	case "ping", "endsessions", "killcursors":
		return bson.D{ok}
	}
	js, err := bson.MarshalExtJSON(cmd, true, false)
	if err != nil {
		panic(err)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.ids = append(s.ids, oid.FindAllString(string(js), -1)...)
	s.sent = append(s.sent, oid.ReplaceAllString(string(js), `"OID"`))
	r := reply{Kind: "ok"}
	if len(s.plan) > 0 {
		r, s.plan = s.plan[0], s.plan[1:]
	}
	db, _ := field(cmd, "$db").(string)
	coll, _ := cmd[0].Value.(string)
	switch r.Kind {
	case "err":
		return bson.D{{Key: "ok", Value: 0.0}, {Key: "errmsg", Value: fmt.Sprint("no ", r.N)}, {Key: "code", Value: int32(300 + r.N)}, {Key: "codeName", Value: "No"}}
	}
	var docs bson.A
	for i := 0; i < r.N; i++ {
		docs = append(docs, bson.D{{Key: "_id", Value: i}, {Key: "name", Value: fmt.Sprintf("doc%d/%d", i, r.N)}, {Key: "n", Value: int32(r.N - i)}})
	}
	var a bson.D
	switch name {
	case "find", "aggregate", "listIndexes":
		cur := int64(0)
		if r.N > 2 { // the rest has to be fetched
			cur = 77
		}
		a = bson.D{{Key: "cursor", Value: bson.D{{Key: "id", Value: cur}, {Key: "ns", Value: db + "." + coll}, {Key: "firstBatch", Value: docs}}}}
	case "getMore":
		a = bson.D{{Key: "cursor", Value: bson.D{{Key: "id", Value: int64(0)}, {Key: "ns", Value: fmt.Sprint(db, ".", field(cmd, "collection"))}, {Key: "nextBatch", Value: docs}}}}
	case "findAndModify":
		a = bson.D{{Key: "lastErrorObject", Value: bson.D{{Key: "n", Value: int32(r.N)}}}, {Key: "value", Value: nil}}
		if r.N > 0 {
			a[1].Value = docs[0]
		}
	case "update":
		a = bson.D{{Key: "n", Value: int32(r.N)}, {Key: "nModified", Value: int32(r.N / 2)}}
		if r.N == 3 {
			a = append(a, bson.E{Key: "upserted", Value: bson.A{bson.D{{Key: "index", Value: int32(0)}, {Key: "_id", Value: "up"}}}})
		}
	case "createIndexes":
		a = bson.D{{Key: "numIndexesBefore", Value: int32(1)}, {Key: "numIndexesAfter", Value: int32(2)}}
	case "dropIndexes":
		a = bson.D{{Key: "nIndexesWas", Value: int32(r.N)}}
	default:
		a = bson.D{{Key: "n", Value: int32(r.N)}}
	}
	switch r.Kind {
	case "write":
		a = append(a, bson.E{Key: "writeErrors", Value: bson.A{bson.D{{Key: "index", Value: int32(0)}, {Key: "code", Value: int32(11000)}, {Key: "errmsg", Value: fmt.Sprint("twice ", r.N)}}}})
	case "concern":
		a = append(a, bson.E{Key: "writeConcernError", Value: bson.D{{Key: "code", Value: int32(64)}, {Key: "errmsg", Value: fmt.Sprint("not yet ", r.N)}}})
	}
	return append(a, ok)
}

var (
	wrapped, plain = map[string]*server{}, map[string]*server{} // by connection name
	clients        = map[string]*mongo.Client{}
	names          = []string{"users", "logs", "Users", "logs-2"}
)

func TestMain(m *testing.M) {
	opts := []mgo.Option{mgo.WithConnTimeout(10 * time.Second), mgo.WithConnPoolSize(8)}
	for _, n := range names {
		wrapped[n], plain[n] = listen(), listen()
		opts = append(opts, mgo.AppendConn(mgo.ConnInfo{Addr: wrapped[n].addr(), Name: n}))
	}
	if err := mgo.Build(opts...); err != nil {
		panic(err)
	}
	for _, n := range names {
		c, err := mongo.Connect(context.Background(), options.Client().ApplyURI(plain[n].addr()).SetConnectTimeout(10*time.Second).SetMaxPoolSize(8))
		if err != nil {
			panic(err)
		}
		clients[n] = c
	}
	os.Exit(m.Run())
}

// ------------------------------------------------------------------ T09

type kv struct {
	K string `json:"k"`
	V string `json:"v"`
	N int    `json:"n"`
}

type mop struct {
	Op   string   `json:"op"`
	DB   int      `json:"db"`
	Coll string   `json:"coll"`
	F    []kv     `json:"f"` // filter; nil for none at all
	D    []kv     `json:"d"` // document, update, pipeline
	More [][]kv   `json:"more"`
	Opts []string `json:"opts"`
	N    int      `json:"n"`
	Plan []reply  `json:"plan"`
	Dead bool     `json:"dead"` // the context has ended
	NilF bool     `json:"nilf"`
	Keep bool     `json:"keep"` // documents come with their identity
	Upd  bool     `json:"upd"`  // the document is an update
	Two  bool     `json:"two"`  // options in two parts
	Many int      `json:"many"` // the documents are given that many times more
}

type scnT09 struct {
	Ops []mop `json:"ops"`
}

var opNames = []string{"Find", "Count", "FindOne", "UpdateOne", "InsertOne", "InsertMany", "DeleteOne", "SetTTL", "CreateIndexes", "IndexList", "DeleteOneIndex", "DeleteMany", "ReplaceOne",
	"FindOneAndUpdate", "Aggregate", "CountDocuments", "BulkWrite"}

func genKV(rt *rapid.T, min int) []kv {
	return rapid.SliceOfNDistinct(rapid.Custom(func(rt *rapid.T) kv {
		return kv{rapid.SampledFrom([]string{"a", "b", "c.d", "name", "n"}).Draw(rt, "k"), rapid.SampledFrom([]string{"", "x", "ü", "y z"}).Draw(rt, "v"), rapid.IntRange(-2, 5).Draw(rt, "n")}
	}), min, 3, func(x kv) string { return x.K }).Draw(rt, "kv")
}

func genT09(rt *rapid.T) scnT09 {
	var sc scnT09
	for k := rapid.IntRange(1, 6).Draw(rt, "ops"); k > 0; k-- {
		o := mop{Op: rapid.SampledFrom(opNames).Draw(rt, "op"), DB: rapid.IntRange(0, len(names)-1).Draw(rt, "db"), Coll: rapid.SampledFrom([]string{"c1", "C1", "c2", "a.b", "ü ", "system.x", "c1 "}).Draw(rt, "coll"),
			F: genKV(rt, 0), D: genKV(rt, 1), N: rapid.IntRange(0, 4).Draw(rt, "n"), NilF: rapid.IntRange(0, 15).Draw(rt, "nilf") == 0, Keep: rapid.Bool().Draw(rt, "keep"),
			Upd: rapid.IntRange(0, 3).Draw(rt, "upd") > 0, Two: rapid.Bool().Draw(rt, "two"), Dead: rapid.IntRange(0, 15).Draw(rt, "dead") == 0}
		for j := rapid.IntRange(0, 3).Draw(rt, "more"); j > 0; j-- {
			o.More = append(o.More, genKV(rt, 1))
		}
		o.Opts = rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"a", "b", "c", "d"}), 0, 3, rapid.ID[string]).Draw(rt, "opts")
		for j := rapid.IntRange(1, 2).Draw(rt, "plan"); j > 0; j-- {
			o.Plan = append(o.Plan, reply{rapid.SampledFrom([]string{"ok", "ok", "ok", "ok", "ok", "err", "write", "concern"}).Draw(rt, "kind"), rapid.IntRange(0, 4).Draw(rt, "rn")})
		}
		if (o.Op == "InsertMany" || o.Op == "BulkWrite") && rapid.IntRange(0, 31).Draw(rt, "big") == 17 {
			o.Many = rapid.SampledFrom([]int{10, 120, 700}).Draw(rt, "many")
		}
		sc.Ops = append(sc.Ops, o)
	}
	return sc
}

func doc(l []kv) bson.D {
	d := bson.D{}
	for i, x := range l {
		if i%2 == 0 {
			d = append(d, bson.E{Key: x.K, Value: x.V})
		} else {
			d = append(d, bson.E{Key: x.K, Value: x.N})
		}
	}
	return d
}

func (o mop) has(s string) bool {
	for _, x := range o.Opts {
		if x == s {
			return true
		}
	}
	return false
}

func (o mop) filter() any {
	if o.NilF {
		return nil
	}
	return doc(o.F)
}

func (o mop) id(l []kv, i int) bson.D {
	d := doc(l)
	if o.Keep {
		d = append(bson.D{{Key: "_id", Value: fmt.Sprint("id", i)}}, d...)
	}
	return d
}

func (o mop) update() any {
	if o.Upd {
		return bson.D{{Key: "$set", Value: doc(o.D)}}
	}
	return doc(o.D)
}

func (o mop) more() [][]kv {
	var r [][]kv
	for i := 0; i <= o.Many; i++ {
		r = append(r, o.More...)
	}
	return r
}

func (o mop) docs() []any {
	var r []any
	for i, m := range o.more() {
		r = append(r, o.id(m, i))
	}
	return r
}

// two cuts a list of options where the first is given alone.
func two[T any](o mop, l []T) []T {
	if !o.Two && len(l) > 1 {
		return l[:1]
	}
	return l
}

func (o mop) find() []*options.FindOptions {
	a, b := options.Find(), options.Find()
	if o.has("a") {
		a.SetLimit(int64(o.N)).SetSkip(2)
	}
	if o.has("b") {
		a.SetSort(bson.D{{Key: "n", Value: -1}})
	}
	if o.has("c") {
		b.SetProjection(bson.D{{Key: "a", Value: 1}}).SetBatchSize(int32(o.N))
	}
	return two(o, []*options.FindOptions{a, b})
}
func (o mop) findOne() []*options.FindOneOptions {
	a, b := options.FindOne(), options.FindOne()
	if o.has("a") {
		a.SetSkip(int64(o.N))
	}
	if o.has("b") {
		b.SetSort(bson.D{{Key: "n", Value: -1}})
	}
	return two(o, []*options.FindOneOptions{a, b})
}
func (o mop) count() []*options.CountOptions {
	a, b := options.Count(), options.Count()
	if o.has("a") {
		a.SetLimit(int64(o.N + 1))
	}
	if o.has("b") {
		b.SetSkip(int64(o.N))
	}
	return two(o, []*options.CountOptions{a, b})
}
func (o mop) upd() []*options.UpdateOptions {
	a, b := options.Update(), options.Update()
	if o.has("a") {
		a.SetUpsert(o.N%2 == 0)
	}
	if o.has("b") {
		b.SetHint("a_1")
	}
	return two(o, []*options.UpdateOptions{a, b})
}
func (o mop) ins() []*options.InsertOneOptions {
	a, b := options.InsertOne(), options.InsertOne()
	if o.has("a") {
		a.SetBypassDocumentValidation(true)
	}
	if o.has("b") {
		b.SetComment("why")
	}
	return two(o, []*options.InsertOneOptions{a, b})
}
func (o mop) del() []*options.DeleteOptions {
	a, b := options.Delete(), options.Delete()
	if o.has("a") {
		a.SetCollation(&options.Collation{Locale: "de"})
	}
	if o.has("b") {
		b.SetHint("a_1")
	}
	return two(o, []*options.DeleteOptions{a, b})
}
func (o mop) rep() []*options.ReplaceOptions {
	a, b := options.Replace(), options.Replace()
	if o.has("a") {
		a.SetUpsert(o.N%2 == 0)
	}
	if o.has("b") {
		b.SetHint("a_1")
	}
	return two(o, []*options.ReplaceOptions{a, b})
}
func (o mop) fau() []*options.FindOneAndUpdateOptions {
	a, b := options.FindOneAndUpdate(), options.FindOneAndUpdate()
	if o.has("a") {
		a.SetUpsert(true)
	}
	if o.has("b") {
		a.SetReturnDocument(options.After)
	}
	if o.has("c") {
		b.SetSort(bson.D{{Key: "n", Value: 1}})
	}
	return two(o, []*options.FindOneAndUpdateOptions{a, b})
}
func (o mop) agg() []*options.AggregateOptions {
	a, b := options.Aggregate(), options.Aggregate()
	if o.has("a") {
		a.SetAllowDiskUse(true)
	}
	if o.has("b") {
		b.SetBatchSize(int32(o.N + 1))
	}
	return two(o, []*options.AggregateOptions{a, b})
}
func (o mop) bulk() []*options.BulkWriteOptions {
	a, b := options.BulkWrite(), options.BulkWrite()
	if o.has("a") {
		a.SetOrdered(o.N%2 == 0)
	}
	if o.has("b") {
		b.SetBypassDocumentValidation(true)
	}
	return two(o, []*options.BulkWriteOptions{a, b})
}
func (o mop) index(l []kv) mongo.IndexModel {
	k := bson.D{}
	for _, x := range l {
		k = append(k, bson.E{Key: x.K, Value: 1})
	}
	im := mongo.IndexModel{Keys: k, Options: options.Index()}
	if o.has("a") {
		im.Options.SetExpireAfterSeconds(int32(o.N))
	}
	if o.has("b") {
		im.Options.SetUnique(true).SetName("own")
	}
	return im
}
func (o mop) indexes() []mongo.IndexModel {
	var r []mongo.IndexModel
	for i, m := range o.More {
		im := o.index(m)
		if im.Options.Name != nil {
			im.Options.SetName(fmt.Sprint("own", i))
		}
		r = append(r, im)
	}
	return r
}
func (o mop) create() []*options.CreateIndexesOptions {
	if o.has("c") {
		return []*options.CreateIndexesOptions{options.CreateIndexes().SetCommitQuorumInt(int32(o.N))}
	}
	return nil
}
func (o mop) list() []*options.ListIndexesOptions {
	if o.has("c") {
		return []*options.ListIndexesOptions{options.ListIndexes().SetBatchSize(int32(o.N + 1))}
	}
	return nil
}
func (o mop) drop() []*options.DropIndexesOptions {
	if o.has("c") {
		d := time.Duration(o.N+1) * time.Second
		return []*options.DropIndexesOptions{options.DropIndexes().SetMaxTime(d)}
	}
	return nil
}
func (o mop) pipeline() any {
	p := mongo.Pipeline{bson.D{{Key: "$match", Value: doc(o.F)}}}
	for _, m := range o.More {
		p = append(p, bson.D{{Key: "$addFields", Value: doc(m)}})
	}
	return p
}
func (o mop) models() []mongo.WriteModel {
	var r []mongo.WriteModel
	for i, m := range o.more() {
		switch (o.N + i) % 4 {
		case 0:
			r = append(r, mongo.NewInsertOneModel().SetDocument(o.id(m, i)))
		case 1:
			r = append(r, mongo.NewUpdateOneModel().SetFilter(doc(o.F)).SetUpdate(bson.D{{Key: "$set", Value: doc(m)}}))
		case 2:
			r = append(r, mongo.NewDeleteManyModel().SetFilter(doc(m)))
		case 3:
			r = append(r, mongo.NewReplaceOneModel().SetFilter(doc(o.F)).SetReplacement(doc(m)).SetUpsert(true))
		}
	}
	return r
}

// coll is what the wrapper and the driver have in common.
type coll interface {
	Find(context.Context, interface{}, ...*options.FindOptions) (*mongo.Cursor, error)
	FindOne(context.Context, interface{}, ...*options.FindOneOptions) *mongo.SingleResult
	UpdateOne(context.Context, interface{}, interface{}, ...*options.UpdateOptions) (*mongo.UpdateResult, error)
	InsertOne(context.Context, interface{}, ...*options.InsertOneOptions) (*mongo.InsertOneResult, error)
	DeleteOne(context.Context, interface{}, ...*options.DeleteOptions) (*mongo.DeleteResult, error)
	DeleteMany(context.Context, interface{}, ...*options.DeleteOptions) (*mongo.DeleteResult, error)
	ReplaceOne(context.Context, interface{}, interface{}, ...*options.ReplaceOptions) (*mongo.UpdateResult, error)
	FindOneAndUpdate(context.Context, interface{}, interface{}, ...*options.FindOneAndUpdateOptions) *mongo.SingleResult
	Aggregate(context.Context, interface{}, ...*options.AggregateOptions) (*mongo.Cursor, error)
	CountDocuments(context.Context, interface{}, ...*options.CountOptions) (int64, error)
	BulkWrite(context.Context, []mongo.WriteModel, ...*options.BulkWriteOptions) (*mongo.BulkWriteResult, error)
}

func all(ctx context.Context, c *mongo.Cursor, err error) string {
	if err != nil || c == nil {
		return fmt.Sprintf("cursor %v %v", c != nil, err)
	}
	var rs []bson.D
	e := c.All(ctx, &rs)
	return fmt.Sprintf("cursor %v %v", rs, e)
}

func single(r *mongo.SingleResult) string {
	raw, err := r.Raw()
	return fmt.Sprintf("%s %v", raw, err)
}

func val[T any](v *T, err error) string {
	if v == nil {
		return fmt.Sprintf("nil %v", err)
	}
	return fmt.Sprintf("%+v %v", *v, err)
}

func ids(v any) string { // identities by the driver differ from run to run
	return regexp.MustCompile(`ObjectID\("[0-9a-f]{24}"\)`).ReplaceAllString(fmt.Sprint(v), "OID")
}

// do carries an operation out, on the wrapper w or on the driver's collection c.
func do(ctx context.Context, o mop, w *mgo.LCollection, c *mongo.Collection) string {
	var x coll = c
	if w != nil {
		x = w
	}
	switch o.Op {
	case "Find":
		cur, err := x.Find(ctx, o.filter(), o.find()...)
		return all(ctx, cur, err)
	case "Count":
		if w != nil {
			n, err := w.Count(ctx, o.filter(), o.count()...)
			return fmt.Sprint(n, err)
		}
		n, err := c.CountDocuments(ctx, o.filter(), o.count()...)
		return fmt.Sprint(n, err)
	case "CountDocuments":
		n, err := x.CountDocuments(ctx, o.filter(), o.count()...)
		return fmt.Sprint(n, err)
	case "FindOne":
		return single(x.FindOne(ctx, o.filter(), o.findOne()...))
	case "UpdateOne":
		return val(x.UpdateOne(ctx, o.filter(), o.update(), o.upd()...))
	case "InsertOne":
		return ids(val(x.InsertOne(ctx, o.id(o.D, 0), o.ins()...)))
	case "InsertMany":
		var r *mongo.InsertManyResult
		var err error
		if w != nil {
			r, err = w.InsertMany(ctx, o.docs())
		} else {
			r, err = c.InsertMany(ctx, o.docs())
		}
		return ids(val(r, err))
	case "DeleteOne":
		return val(x.DeleteOne(ctx, o.filter(), o.del()...))
	case "DeleteMany":
		return val(x.DeleteMany(ctx, o.filter(), o.del()...))
	case "ReplaceOne":
		return val(x.ReplaceOne(ctx, o.filter(), doc(o.D), o.rep()...))
	case "FindOneAndUpdate":
		return single(x.FindOneAndUpdate(ctx, o.filter(), o.update(), o.fau()...))
	case "Aggregate":
		cur, err := x.Aggregate(ctx, o.pipeline(), o.agg()...)
		return all(ctx, cur, err)
	case "BulkWrite":
		return ids(val(x.BulkWrite(ctx, o.models(), o.bulk()...)))
	case "SetTTL":
		var s string
		var err error
		if w != nil {
			s, err = w.SetTTL(ctx, o.index(o.D), o.create()...)
		} else {
			s, err = c.Indexes().CreateOne(ctx, o.index(o.D), o.create()...)
		}
		return fmt.Sprintf("%q %v", s, err)
	case "CreateIndexes":
		var s []string
		var err error
		if w != nil {
			s, err = w.CreateIndexes(ctx, o.indexes(), o.create()...)
		} else {
			s, err = c.Indexes().CreateMany(ctx, o.indexes(), o.create()...)
		}
		return fmt.Sprintf("%q %v", s, err)
	case "IndexList":
		var cur *mongo.Cursor
		var err error
		if w != nil {
			cur, err = w.IndexList(ctx, o.list()...)
		} else {
			cur, err = c.Indexes().List(ctx, o.list()...)
		}
		return all(ctx, cur, err)
	case "DeleteOneIndex":
		var r bson.Raw
		var err error
		name := o.Coll + "_1"
		if o.N == 0 {
			name = "*"
		}
		if w != nil {
			r, err = w.DeleteOneIndex(ctx, name, o.drop()...)
		} else {
			r, err = c.Indexes().DropOne(ctx, name, o.drop()...)
		}
		return fmt.Sprintf("%s %v", r, err)
	}
	panic(o.Op)
}

func TestT09(t *testing.T) {
	hx.Check(t, "T09", "an operation reached the server with options or failed", genT09, runT09)
}

var where = regexp.MustCompile(`127\.0\.0\.1:\d+(\[-?\d+\])?`)

func runT09(t *testing.T, sc scnT09) hx.Out {
	lab := hx.Labels{}
	nt := false
	for _, o := range sc.Ops {
		db := names[o.DB]
		ctx, cancel := context.WithCancel(context.Background())
		if o.Dead {
			cancel()
			lab["context at its end"] = true
		}
		for _, n := range names {
			wrapped[n].reset(o.Plan)
			plain[n].reset(o.Plan)
		}
		var got, want string
		var pan any
		func() {
			defer func() { pan = recover() }()
			got = do(ctx, o, mgo.Collection(db, o.Coll), nil)
		}()
		if pan != nil {
			cancel()
			return hx.Fail("%s of %s.%s: panic %v", o.Op, db, o.Coll, pan)
		}
		want = do(ctx, o, nil, clients[db].Database(db).Collection(o.Coll))
		cancel()
		// the ports differ
		got, want = where.ReplaceAllString(got, "there"), where.ReplaceAllString(want, "there")
		if o.Dead { // with or without a connection at hand
			got, want = ended(got), ended(want)
		}
		what := fmt.Sprintf("%s %+v of %s.%s", o.Op, o, db, o.Coll)
		if got != want {
			return hx.Fail("%s: %s, the driver itself %s", what, got, want)
		}
		sent := 0
		for _, n := range names {
			g, gi := wrapped[n].take()
			w, wi := plain[n].take()
			if fmt.Sprint(g) != fmt.Sprint(w) {
				return hx.Fail("%s: sent to %s %v, the driver itself %v", what, n, g, w)
			}
			if len(gi) != len(wi) || len(uniq(gi)) != len(uniq(wi)) {
				return hx.Fail("%s: made up the identities %v, the driver itself %v", what, gi, wi)
			}
			sent += len(g)
		}
		if sent > 0 {
			lab[o.Op] = true
			if len(o.Opts) > 0 {
				nt = true
			}
		}
		for _, r := range o.Plan[:1] {
			if r.Kind != "ok" && sent > 0 {
				nt = true
				lab["answered "+r.Kind] = true
			}
		}
	}
	// a connection nobody configured
	func() {
		defer func() {
			if recover() != nil {
				lab["unknown database refused"] = true
			}
		}()
		mgo.Collection("nowhere", "c")
	}()
	if !lab["unknown database refused"] {
		return hx.Out{Err: errors.New("a collection of an unknown database was handed out")}
	}
	return hx.Out{NonTrivial: nt, Labels: lab.List()}
}

func ended(s string) string {
	if strings.Contains(s, "context canceled") || strings.Contains(s, "canceled while checking") {
		return "context canceled"
	}
	return s
}

func uniq(l []string) []string {
	l = append([]string(nil), l...)
	sort.Strings(l)
	var r []string
	for i, x := range l {
		if i == 0 || x != l[i-1] {
			r = append(r, x)
		}
	}
	return r
}
