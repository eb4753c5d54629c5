package main

import (
	"crypto/sha256"
	"fmt"
	"io"

	"github.com/cloudflare/circl/group"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/matrix"
	"github.com/si-co/vpir-code/lib/query"
	"github.com/si-co/vpir-code/lib/server"
	"github.com/si-co/vpir-code/lib/utils"
)

// scheme is any of the schemes behind its encoded interface.
type scheme struct {
	name      string
	answer    []func(q []byte) ([]byte, error) // by server
	newClient func(rnd io.Reader) *schemeClient
	pick      func(c *C) *request
	snapshot  func() string // of the database
	auth      bool

	rows, cols int // of the single-server databases
	repeated   int // number of queries within one
}

type request struct {
	what  string
	index int
	pred  *query.ClientFSS
	want  string // the right result
	fails bool   // the right result is an error
}

type schemeClient struct {
	query       func(r *request) ([][]byte, error)
	reconstruct func(a [][]byte) (string, error)
}

// ask runs a whole query.
func (s *scheme) ask(cl *schemeClient, r *request) (string, error) {
	qs, err := cl.query(r)
	if err != nil {
		return "", fmt.Errorf("query: %w", err)
	}
	if len(qs) != len(s.answer) {
		return "", fmt.Errorf("%d queries for %d servers", len(qs), len(s.answer))
	}
	as := make([][]byte, len(qs))
	for i := range qs {
		if as[i], err = s.answer[i](qs[i]); err != nil {
			return "", fmt.Errorf("answer: %w", err)
		}
	}
	return cl.reconstruct(as)
}

func (r *request) judge(v string, err error) string {
	if r.fails {
		if err == nil {
			return fmt.Sprintf("%s gives %s instead of an error", r.what, v)
		}
		return ""
	}
	if err != nil {
		return fmt.Sprintf("%s: %v", r.what, err)
	}
	if v != r.want {
		return fmt.Sprintf("%s gives %s instead of %s", r.what, v, r.want)
	}
	return ""
}

func pointScheme(p *pointDB, k int, cores ...int) *scheme {
	s := newPointServer(p.db, k, cores...)
	sc := &scheme{name: fmt.Sprintf("%s, %d servers, cores %v", p.what, k, cores), auth: p.merkle}
	for i := 0; i < k; i++ {
		sc.answer = append(sc.answer, s.AnswerBytes)
	}
	sc.newClient = func(rnd io.Reader) *schemeClient {
		cl := client.NewPIR(rnd, &p.db.Info)
		return &schemeClient{
			query: func(r *request) ([][]byte, error) { return cl.QueryBytes(idxBytes(r.index), k) },
			reconstruct: func(a [][]byte) (string, error) {
				v, err := cl.ReconstructBytes(a)
				if err != nil {
					return "", err
				}
				b, ok := v.([]byte)
				if !ok {
					return fmt.Sprintf("a %T", v), nil
				}
				return fmt.Sprintf("%x", b), nil
			}}
	}
	sc.pick = func(c *C) *request {
		i := c.R.Intn(p.n())
		return &request{what: fmt.Sprintf("position %d", i), index: i, want: fmt.Sprintf("%x", p.want(i))}
	}
	sc.snapshot = func() string { return dumpBytes(p.db) }
	return sc
}

func bitPick(n int, cell func(i int) byte) func(c *C) *request {
	return func(c *C) *request {
		i := c.R.Intn(n)
		return &request{what: fmt.Sprintf("position %d", i), index: i, want: fmt.Sprint(cell(i))}
	}
}

func one(f func([]byte) (uint32, error)) func(a [][]byte) (string, error) {
	return func(a [][]byte) (string, error) {
		if len(a) != 1 {
			return "", fmt.Errorf("%d answers", len(a))
		}
		v, err := f(a[0])
		return fmt.Sprint(v), err
	}
}

func oneQuery(f func(i int) ([]byte, error)) func(r *request) ([][]byte, error) {
	return func(r *request) ([][]byte, error) {
		q, err := f(r.index)
		return [][]byte{q}, err
	}
}

func latticeScheme1(c *C, kind string, rows, cols int) *scheme {
	cells := randomCells(c, rows*cols, "random")
	sc := &scheme{name: fmt.Sprintf("%s %dx%d", kind, rows, cols), auth: true, rows: rows, cols: cols}
	sc.pick = bitPick(rows*cols, func(i int) byte { return cells[i] })
	switch kind {
	case "lwe":
		db := lweDB(rows, cols, cells)
		s := server.NewLWE(db)
		sc.answer = append(sc.answer, s.AnswerBytes)
		sc.newClient = func(rnd io.Reader) *schemeClient {
			cl := client.NewLWE(rnd, &db.Info, utils.ParamsWithDatabaseSize(rows, cols))
			return &schemeClient{query: oneQuery(cl.QueryBytes), reconstruct: one(cl.ReconstructBytes)}
		}
		sc.snapshot = func() string { return dumpInfo(&db.Info) + dumpCells(db.Matrix, rows, cols) }
	case "lwe128":
		db := lweDB128(rows, cols, cells)
		s := server.NewLWE128(db)
		sc.answer = append(sc.answer, s.AnswerBytes)
		sc.newClient = func(rnd io.Reader) *schemeClient {
			cl := client.NewLWE128(rnd, &db.Info, utils.ParamsWithDatabaseSize128(rows, cols))
			return &schemeClient{query: oneQuery(cl.QueryBytes), reconstruct: one(cl.ReconstructBytes)}
		}
		sc.snapshot = func() string { return dumpInfo(&db.Info) + dumpCells(db.Matrix, rows, cols) }
	case "amplify":
		sc.repeated = 2*2 + 1
		db := lweDB(rows, cols, cells)
		s := server.NewAmplify(db)
		sc.answer = append(sc.answer, s.AnswerBytes)
		sc.newClient = func(rnd io.Reader) *schemeClient {
			cl := client.NewAmplify(rnd, &db.Info, utils.ParamsWithDatabaseSize(rows, cols), 2)
			return &schemeClient{query: oneQuery(cl.QueryBytes), reconstruct: one(cl.ReconstructBytes)}
		}
		sc.snapshot = func() string { return dumpInfo(&db.Info) + dumpCells(db.Matrix, rows, cols) }
	}
	return sc
}

func groupScheme(c *C, name string, g group.Group, n int, rebalanced bool) *scheme {
	d := makeDH(c, g, n, rebalanced, func(i, rows, cols int) byte { return byte(c.R.Intn(2)) })
	s := server.NewDH(d.db)
	sc := &scheme{name: fmt.Sprintf("%s %dx%d", name, d.rows, d.cols), auth: true, rows: d.rows, cols: d.cols}
	sc.pick = bitPick(len(d.cells), func(i int) byte { return d.cells[i] })
	sc.answer = append(sc.answer, s.AnswerBytes)
	sc.newClient = func(rnd io.Reader) *schemeClient {
		cl := client.NewDH(rnd, &d.db.Info)
		return &schemeClient{query: oneQuery(cl.QueryBytes), reconstruct: func(a [][]byte) (string, error) {
			if len(a) != 1 {
				return "", fmt.Errorf("%d answers", len(a))
			}
			v, err := cl.ReconstructBytes(a[0])
			return fmt.Sprint(v), err
		}}
	}
	sc.snapshot = func() string { return dumpInfo(&d.db.Info) + fmt.Sprintf("%x", sha256.Sum256(d.db.Entries)) }
	return sc
}

func predScheme(keys []plainKey, auth bool) *scheme {
	db := keysDB(keys)
	ss := predServers(db, auth)
	sc := &scheme{name: fmt.Sprintf("aggregates over %d keys, auth=%v", len(keys), auth), auth: auth}
	for i := range ss {
		sc.answer = append(sc.answer, ss[i].AnswerBytes)
	}
	sc.newClient = func(rnd io.Reader) *schemeClient {
		cl := newPredClient(rnd, &db.Info, auth)
		return &schemeClient{
			query: func(r *request) ([][]byte, error) {
				in, err := r.pred.Encode()
				if err != nil {
					return nil, err
				}
				return cl.QueryBytes(in, 2)
			},
			reconstruct: func(a [][]byte) (string, error) {
				v, err := cl.ReconstructBytes(a)
				return fmt.Sprint(v), err
			}}
	}
	sc.pick = func(c *C) *request {
		for {
			p := randomPredicate(c, keys)
			if p.avg { // depends on the current year: only whether it is one
				continue
			}
			return &request{what: p.what, pred: p.q, want: fmt.Sprint(p.count(keys))}
		}
	}
	sc.snapshot = func() string { return dumpDB(db) }
	return sc
}

// allSchemes makes one small instance of every scheme.
func allSchemes(c *C, size int) []*scheme {
	d := func(n int) int { return 1 + c.R.Intn(n) }
	var out []*scheme
	for _, auth := range []bool{false, true} {
		out = append(out,
			pointScheme(variableDB(c.R, 1, 2+d(8*size), 30, auth), 2),
			pointScheme(variableDB(c.R, 1+d(3*size), 1+d(4*size), 30, auth), 3),
			pointScheme(fixedDB(c.R, 1+d(3*size), 1+d(4*size), d(24), auth), 2, 3),
			pointScheme(fixedDB(c.R, 1, 1+d(9*size), d(24), auth), 4, 1),
			predScheme(randomKeys(c.R, 5*size+d(8*size)), auth))
	}
	for _, k := range []string{"lwe", "amplify"} {
		out = append(out, latticeScheme1(c, k, d(5*size), d(6*size)))
	}
	out = append(out, latticeScheme1(c, "lwe128", d(3), d(5)))
	out = append(out, groupScheme(c, "P256", group.P256, d(12*size), c.R.Intn(2) == 0),
		groupScheme(c, "ristretto255", group.Ristretto255, d(12*size), c.R.Intn(2) == 0))
	if len(out) != schemeCount {
		panic("wrong number of schemes")
	}
	return out
}

const schemeCount = 15

var _ = matrix.New
var _ = database.Info{}
