package suites

import (
	"database/sql"
	"fmt"
	"io"
	"math"
	"strings"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"

	"vf/boltsrv"
	"vf/h"
	"vf/ref"
)

func init() {
	register(Suite{Name: "result.meta", Props: []string{"C23", "C08"}, Run: resultMeta})
}

var statKeys = []string{"nodes-created", "nodes-deleted", "relationships-created", "relationships-deleted"}

// resultMeta sends statistics, columns and metadata of every kind and compares
// what the result and row objects report.
func resultMeta(c *h.Ctx) {
	const suite = "result.meta"
	c.Rule(suite, "statistics maps: all subsets of the four counting statistics times other statistics, values of all sizes and signs, missing, empty, non-map and non-integer statistics; column lists of 0-300 names of any text, duplicates and empty names; arbitrary nested summary and header metadata; seen through Exec, prepared Exec, both pipelines, Query, QueryAll, database/sql. RowsAffected must be the sum computed independently, columns and metadata identical to what was sent. Distinct by metadata and way")
	fixedStats := []interface{}{}
	for m := 0; m < 16; m++ {
		for _, other := range []bool{false, true} {
			st := ref.Map{}
			for k := 0; k < 4; k++ {
				if m>>uint(k)&1 == 1 {
					st[statKeys[k]] = int64(1) << uint(4*k)
				}
			}
			if other {
				for j, o := range []string{"properties-set", "labels-added", "labels-removed", "indexes-added", "indexes-removed", "constraints-added", "constraints-removed", "nodes", "created", "nodes_created", "relationships-updated", "nodes-updated"} {
					st[o] = int64(1) << uint(20+j)
				}
			}
			fixedStats = append(fixedStats, map[string]interface{}(st))
		}
	}
	for _, k := range statKeys {
		for _, v := range []interface{}{nil, "1", 1.5, true, []interface{}{int64(1)}, map[string]interface{}{"n": int64(1)}} {
			fixedStats = append(fixedStats, map[string]interface{}{k: v})
			fixedStats = append(fixedStats, map[string]interface{}{k: v, statKeys[0]: v, statKeys[3]: v})
		}
		for _, v := range []int64{0, 1, 127, 128, 32767, 32768, math.MaxInt32, math.MaxInt32 + 1, math.MaxInt64, -1, -17, math.MinInt64} {
			fixedStats = append(fixedStats, map[string]interface{}{k: v})
		}
	}
	for _, v := range []interface{}{nil, "x", int64(3), 2.5, true, []interface{}{}, []interface{}{"nodes-created", int64(1)}, map[string]interface{}{}} {
		fixedStats = append(fixedStats, v)
	}
	ways := []string{"exec", "stmtexec", "execpipeline", "stmtexecpipeline", "sqlexec", "sqlstmtexec", "query", "stmtquery", "all", "pipeline", "sqlquery"}
	nrand := c.Pick(2500, 40000)
	total := len(fixedStats)*6 + nrand
	c.Each(suite, total, func(w, i int, name string) {
		r := c.Rand(suite, i)
		g := &ref.Gen{R: r, Budget: 20}
		way := ways[r.Intn(len(ways))]
		nq := 1
		if strings.Contains(way, "pipeline") {
			nq = 1 + r.Intn(5)
		}
		var texts []string
		scripts := map[string]*boltsrv.Script{}
		for q := 0; q < nq; q++ {
			sc := &boltsrv.Script{RunMeta: ref.Map{}, PullMeta: ref.Map{}}
			if r.Intn(3) == 0 {
				if m, err := ref.Wire(g.Props(3)); err == nil {
					for k, v := range m.(map[string]interface{}) {
						sc.RunMeta[k] = v
					}
				}
				g.Budget = 20
				if m, err := ref.Wire(g.Props(3)); err == nil {
					for k, v := range m.(map[string]interface{}) {
						sc.PullMeta[k] = v
					}
				}
				g.Budget = 20
			}
			delete(sc.PullMeta, "stats")
			delete(sc.RunMeta, "fields")
			if r.Intn(3) == 0 {
				sc.RunMeta["result_available_after"] = g.Int()
				sc.PullMeta["result_consumed_after"] = g.Int()
				sc.PullMeta["type"] = "rw"
			}
			fields := []interface{}{}
			ncol := r.Intn(5)
			if r.Intn(10) == 0 {
				ncol = r.Intn(300)
			}
			row := []interface{}{}
			for k := 0; k < ncol; k++ {
				f := fmt.Sprintf("c%d", k)
				switch r.Intn(6) {
				case 0:
					f = g.String(r.Intn(40))
				case 1:
					f = ""
				case 2:
					f = "same"
				case 3:
					f = []string{"n.name", " padded ", "COUNT(*)", "`quoted`", "a,b", "{x: 1}", "tab\there", "line\nbreak", "ends.", "ÅÉ", "nil", "0"}[r.Intn(12)]
				}
				if r.Intn(40) == 0 {
					f = g.String([]int{100, 127, 128, 254, 255, 256, 257, 1000, 5000, 66000}[r.Intn(10)])
				}
				fields = append(fields, f)
				row = append(row, int64(k))
			}
			sc.RunMeta["fields"] = fields
			if r.Intn(12) == 0 {
				delete(sc.RunMeta, "fields")
			}
			for k := r.Intn(3); k > 0; k-- {
				sc.Rows = append(sc.Rows, row)
			}
			switch {
			case i < len(fixedStats)*6:
				way = ways[i%6]
				if q == 0 || r.Intn(2) == 0 {
					sc.PullMeta["stats"] = fixedStats[i/6]
				}
			case r.Intn(3) != 0:
				st := map[string]interface{}{}
				for _, k := range statKeys {
					if r.Intn(2) == 0 {
						st[k] = g.Int() / 4
					}
				}
				for k := r.Intn(4); k > 0; k-- {
					st[g.Key()] = g.WireValue(1)
				}
				sc.PullMeta["stats"] = st
			}
			t := fmt.Sprintf("q%d", q)
			texts = append(texts, t)
			scripts[t] = sc
		}
		srv := boltsrv.New()
		srv.Wide = r.Intn(3) == 0
		srv.Seed = int64(i)
		srv.Handler = func(s *boltsrv.Session, q string, p interface{}) *boltsrv.Script { return scripts[q] }
		srv.Start()
		defer srv.Close()
		key := way
		bad := func(f string, a ...interface{}) {
			viol(c, suite, name, []string{"C23", "C08"}, fmt.Sprintf("%s with header %s, summary %s: ", way, ref.Short(scripts["q0"].RunMeta), ref.Short(scripts["q0"].PullMeta))+fmt.Sprintf(f, a...))
		}
		affected := func(q int, res interface {
			RowsAffected() (int64, error)
		}) {
			m := scripts[texts[q]].PullMeta
			want, ok := expAffected(m)
			n, err := res.RowsAffected()
			if ok && (err != nil || n != want) {
				bad("RowsAffected of query %d is %d, %v; the statistics %s give %d", q, n, err, ref.Short(m["stats"]), want)
			}
			if !ok && err == nil {
				bad("RowsAffected of query %d is %d without an error for statistics %s", q, n, ref.Short(m["stats"]))
			}
			c.Count("meta.statistics", 1)
		}
		same := func(what string, got map[string]interface{}, want ref.Map) {
			if eq, why := ref.Equal(map[string]interface{}(want), got); !eq {
				if got == nil && len(want) == 0 {
					return
				}
				bad("%s is %s: %s", what, ref.Short(got), why)
			}
			c.Count("meta.metadata", 1)
		}
		columns := func(q int, got []string) {
			want := expColumns(scripts[texts[q]].RunMeta)
			if len(got) != len(want) {
				bad("%d columns instead of %d", len(got), len(want))
				return
			}
			for k := range got {
				if got[k] != want[k] {
					bad("column %d is %q instead of %q", k, got[k], want[k])
				}
			}
			c.Count("meta.columns", int64(len(got)))
		}
		result := func(q int, res bolt.Result, err error) {
			if err != nil || res == nil {
				bad("query %d failed: %v", q, err)
				return
			}
			same(fmt.Sprintf("the metadata of result %d", q), res.Metadata(), scripts[texts[q]].PullMeta)
			affected(q, res)
			if id, err := res.LastInsertId(); id != -1 || err != nil {
				bad("LastInsertId is %d, %v", id, err)
			}
		}
		o := h.Guard(hangTicks, srv.Activity, nil, func() {
			if strings.HasPrefix(way, "sql") {
				db, err := sql.Open("neo4j-bolt", srv.URL())
				if err != nil {
					bad("%s", err)
					return
				}
				defer db.Close()
				switch way {
				case "sqlexec", "sqlstmtexec":
					var res sql.Result
					if way == "sqlexec" {
						res, err = db.Exec(texts[0])
					} else {
						var st *sql.Stmt
						if st, err = db.Prepare(texts[0]); err == nil {
							defer st.Close()
							res, err = st.Exec()
						}
					}
					if err != nil {
						bad("%s", err)
						return
					}
					affected(0, res)
				default:
					rs, err := db.Query(texts[0])
					if err != nil {
						bad("%s", err)
						return
					}
					defer rs.Close()
					cols, err := rs.Columns()
					if err != nil {
						bad("%s", err)
						return
					}
					columns(0, cols)
				}
				return
			}
			cn, err := bolt.NewDriver().OpenNeo(srv.URL())
			if err != nil {
				bad("%s", err)
				return
			}
			defer cn.Close()
			rows := func(rs bolt.Rows, err error) {
				if err != nil {
					bad("%s", err)
					return
				}
				sc := scripts[texts[0]]
				columns(0, rs.Columns())
				same("the metadata of the rows", rs.Metadata(), sc.RunMeta)
				for k := range sc.Rows {
					d, m, err := rs.NextNeo()
					if err != nil || m != nil || len(d) != len(sc.Rows[k]) {
						bad("row %d: %v %v %v", k, d, m, err)
						return
					}
				}
				_, m, err := rs.NextNeo()
				if err != io.EOF {
					bad("end of rows: %v", err)
				}
				same("the summary", m, sc.PullMeta)
				columns(0, rs.Columns())
				same("the metadata of the read rows", rs.Metadata(), sc.RunMeta)
				rs.Close()
			}
			switch way {
			case "exec":
				res, err := cn.ExecNeo(texts[0], nil)
				result(0, res, err)
			case "stmtexec":
				st, err := cn.PrepareNeo(texts[0])
				if err != nil {
					bad("%s", err)
					return
				}
				for k := 0; k < 2; k++ {
					res, err := st.ExecNeo(nil)
					result(0, res, err)
				}
				st.Close()
			case "execpipeline", "stmtexecpipeline":
				var res []bolt.Result
				params := make([]map[string]interface{}, nq)
				if way == "execpipeline" {
					res, err = cn.ExecPipeline(texts, params...)
				} else {
					var st bolt.PipelineStmt
					if st, err = cn.PreparePipeline(texts...); err == nil {
						res, err = st.ExecPipeline(params...)
						st.Close()
					}
				}
				if err != nil || len(res) != nq {
					bad("%d results, %v", len(res), err)
					return
				}
				for q := range res {
					result(q, res[q], nil)
				}
			case "query":
				rows(cn.QueryNeo(texts[0], nil))
			case "stmtquery":
				st, err := cn.PrepareNeo(texts[0])
				if err != nil {
					bad("%s", err)
					return
				}
				rows(st.QueryNeo(nil))
				st.Close()
			case "all":
				_, hm, m, err := cn.QueryNeoAll(texts[0], nil)
				if err != nil {
					bad("%s", err)
					return
				}
				same("the header", hm, scripts[texts[0]].RunMeta)
				same("the summary", m, scripts[texts[0]].PullMeta)
			case "pipeline":
				prs, err := cn.QueryPipeline(texts, make([]map[string]interface{}, nq)...)
				if err != nil {
					bad("%s", err)
					return
				}
				for q := range texts {
					columns(q, prs.Columns())
					same(fmt.Sprintf("the metadata of rows %d", q), prs.Metadata(), scripts[texts[q]].RunMeta)
					for k := range scripts[texts[q]].Rows {
						d, _, _, err := prs.NextPipeline()
						if err != nil || len(d) != len(scripts[texts[q]].Rows[k]) {
							bad("row %d of query %d: %v %v", k, q, d, err)
							return
						}
					}
					_, _, next, err := prs.NextPipeline()
					if q < nq-1 {
						if err != nil || next == nil {
							bad("end of query %d: %v", q, err)
							return
						}
						prs = next
					}
				}
				prs.Close()
			}
		})
		if o.Bad() {
			bad("%s", o.String())
		}
		for _, t := range texts {
			key += ref.Short(scripts[t].RunMeta) + ref.Short(scripts[t].PullMeta)
		}
		c.Eval(key)
		c.SampleN(suite, 3, func() interface{} {
			return map[string]interface{}{"suite": suite, "way": way, "header": ref.Short(scripts["q0"].RunMeta), "summary": ref.Short(scripts["q0"].PullMeta)}
		})
	})
}
