package main

import (
	"crypto/tls"
	"crypto/x509"
	"net/http"
	"os"
	"strings"
	"time"

	"github.com/DanLavine/willow/verifmc/h/hx"
	"github.com/DanLavine/willow/verifmc/h/pem"
	"github.com/DanLavine/willow/verifmc/vhttp"
	"github.com/DanLavine/willow/verifmc/vproc"
	"github.com/DanLavine/willow/verifmc/vs"
	"golang.org/x/net/http2"
)

// secure are the arguments of a service that serves https, with the given files.
func secure(service, ca, crt, key, depScheme, clientCA, clientCrt, clientKey string) []string {
	at := func(f string) string {
		if f == "" {
			return ""
		}
		return pem.Path(f)
	}
	a := []string{"-port", ports[service], "-server-ca", at(ca), "-server-crt", at(crt), "-server-key", at(key)}
	if d := dependency[service]; d != "" {
		a = append(a, "-"+d+"-url", strings.Replace(url(d), "http:", depScheme+":", 1), "-"+d+"-client-ca", at(clientCA), "-"+d+"-client-crt", at(clientCrt), "-"+d+"-client-key", at(clientKey))
	}
	return a
}

// trusting is a client that trusts the test CA.
func trusting() *http.Client {
	b, err := os.ReadFile(pem.Path("ca.crt"))
	if err != nil {
		panic(err)
	}
	p := x509.NewCertPool()
	p.AppendCertsFromPEM(b)
	return &http.Client{Transport: &http2.Transport{TLSClientConfig: &tls.Config{RootCAs: p}}}
}

func get(c *http.Client, scheme, service, path string) answer {
	req, err := http.NewRequest("GET", strings.Replace(url(service), "http:", scheme+":", 1)+path, nil)
	if err != nil {
		return answer{err: err}
	}
	resp, err := vhttp.Do(c)(req)
	if err != nil {
		return answer{err: err}
	}
	resp.Body.Close()
	return answer{status: resp.StatusCode}
}

func init() {
	// every choice of files for the server and the client of the locker and the limiter
	s := hx.Sched("P23", "svc/tls", 0, 0, func() {
		vs.Calm(true)
		boot()
		ca := []string{"", "ca.crt", "garbage"}[vs.Choose(3)]
		crt := []string{"server.crt", "missing", "client.crt"}[vs.Choose(3)]
		c := trusting()
		l := vproc.Start("locker", secure("locker", ca, crt, "server.key", "", "", "", ""), mains["locker"])
		vs.Sleep(time.Second)
		if ca == "garbage" || crt != "server.crt" {
			if !l.Exited() || l.Code == 0 {
				hx.FailH("a server with unusable files runs", "ca %q crt %q: %v", ca, crt, l.Exited())
			}
			return
		}
		if a := get(c, "https", "locker", "/health"); a.err != nil || a.status != 200 {
			hx.FailH("a server with a certificate cannot be reached", "%s", a)
		}
		if a := get(c, "http", "locker", "/health"); a.err == nil && a.status == 200 {
			hx.FailH("a server with a certificate answers plain requests", "%s", a)
		}
		scheme := []string{"https", "http"}[vs.Choose(2)]
		cca := []string{"ca.crt", "", "otherca.crt"}[vs.Choose(3)]
		ccrt := []string{"client.crt", ""}[vs.Choose(2)]
		p := vproc.Start("limiter", secure("limiter", ca, crt, "server.key", scheme, cca, ccrt, strings.Replace(ccrt, "crt", "key", 1)), mains["limiter"])
		vs.Sleep(time.Second)
		up := scheme == "https" && cca == "ca.crt" && ccrt != ""
		if a := get(c, "https", "limiter", "/health"); up != (a.err == nil && a.status == 200) {
			hx.FailH("a service and its dependency over https", "%s, the client of the locker has %q %q %q", a, scheme, cca, ccrt)
		}
		vs.Sleep(3 * time.Minute)
		if up == p.Exited() || !up && p.Code == 0 {
			hx.FailH("a service that cannot trust its dependency", "%v %d %s", p.Exited(), p.Code, p.Reason)
		}
		if up {
			p.Signal(sigint)
			graceful(p)
		}
		l.Signal(sigint)
		graceful(l)
	})
	s.Horizon = 100 * time.Hour
}
