package hsrv

import (
	"strings"

	"github.com/prometheus/client_golang/prometheus"
	dto "github.com/prometheus/client_model/go"

	"github.com/libregraph/idm/server"
	"github.com/libregraph/idm/zzverif/app"
	"github.com/libregraph/idm/zzverif/sym"
)

// registry remembers what is registered.
type registry struct{ cs []prometheus.Collector }

func (r *registry) Register(c prometheus.Collector) error {
	r.cs = append(r.cs, c)
	return nil
}
func (r *registry) MustRegister(cs ...prometheus.Collector) { r.cs = append(r.cs, cs...) }
func (r *registry) Unregister(prometheus.Collector) bool    { return false }

// Metrics: what is published is what was counted.
func Metrics() {
	r := &registry{}
	srv, err := server.NewServer(&server.Config{Logger: app.Logger(), LDAPHandler: "ldif", LDAPBaseDN: "o=b", Metrics: r,
		LDIFMain: app.Write("main.ldif", "dn: o=b\nobjectClass: top\n")})
	sym.Assert(err == nil, "server is not made")
	sym.Assert(len(r.cs) == 1, "no metrics are registered")
	s, c := srv.LDAPServer, r.cs[0]
	values := map[string]float64{}
	for _, m := range []struct {
		name string
		at   *uint64
	}{
		{"connections_total", &s.Stats.Conns}, {"connections_current", &s.Stats.ConnsCurrent}, {"connections_max", &s.Stats.ConnsMax},
		{"binds_total", &s.Stats.Binds}, {"unbinds_total", &s.Stats.Unbinds}, {"searches_total", &s.Stats.Searches},
	} {
		n := sym.Choice(m.name, 2)
		*m.at = uint64(n)
		values[m.name] = float64(n)
	}
	ch := make(chan prometheus.Metric, 16)
	c.Collect(ch)
	close(ch)
	seen := 0
	for m := range ch {
		d := m.Desc().String()
		var p dto.Metric
		sym.Assert(m.Write(&p) == nil, "metric has no value")
		var got float64
		if p.Counter != nil {
			got = *p.Counter.Value
		} else if p.Gauge != nil {
			got = *p.Gauge.Value
		}
		for name, want := range values {
			if strings.Contains(d, "_"+name+"\"") {
				sym.Assert(got == want, "metric "+name+" is wrong")
				seen++
			}
		}
	}
	sym.Assert(seen == len(values), "metrics are missing or repeated")
	sym.Observe("seen", seen)
	sym.Cover("collected")
}
