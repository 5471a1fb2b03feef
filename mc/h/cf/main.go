// The configurations of the services and of the clients: every combination of flags, environment and defaults (P24).
package main

import (
	"crypto/tls"
	"fmt"
	"net/http"
	"os"
	"os/exec"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/DanLavine/willow/internal/config"
	"github.com/DanLavine/willow/pkg/clients"
	"github.com/DanLavine/willow/verifmc/h/hx"
	"github.com/DanLavine/willow/verifmc/h/pem"
	"github.com/DanLavine/willow/verifmc/vs"
	"golang.org/x/net/http2"
)

type setting struct {
	name  string   // for the oracle
	flag  string   // without the dash
	env   string   // variable
	def   string   // the default
	flags []string // values tried as a flag ("" is unset)
	envs  []string // values tried as a variable ("" is unset)
}

func (s setting) value(flag, env string) string {
	switch {
	case env != "":
		return env
	case flag != "":
		return flag
	}
	return s.def
}

type service struct {
	name   string
	server []setting
	client []setting
	parse  func(args []string) (func(name string) string, error)
}

func text(p *string) string {
	if p == nil {
		return "(nothing)"
	}
	return *p
}

func path(name, flag, env string) setting {
	return setting{name, flag, env, "", []string{"", "/f/" + name}, []string{"", "/e/" + name}}
}

func level(env string) setting {
	return setting{"level", "log-level", env, "info", []string{"", "debug", "loud"}, []string{"", "debug", "info", "loud"}}
}

func port(env, def string) setting {
	return setting{"port", "port", env, def, []string{"", "1234", "65535", "65536"}, []string{"", "4321", "70000", "x"}}
}

func insecure(env string) setting {
	return setting{"insecure", "insecure-http", env, "false", []string{"", "true", "false"}, []string{"", "true", "false"}}
}

var services = []service{
	{
		"locker",
		[]setting{level("LOCKER_LOG_LEVEL"), port("LOCKER_PORT", "8083"), path("ca", "server-ca", "LOCKER_SERVER_CA"), path("key", "server-key", "LOCKER_SERVER_KEY"), path("crt", "server-crt", "LOCKER_SERVER_CRT"),
			insecure("LOCKER_INSECURE_HTTP"), {"timeout", "lock-default-timeout", "LOCKER_LOCK_DEFAULT_TIMEOUT", "5s", []string{"", "7s", "0s", "-1s"}, []string{"", "1m0s", "0s", "-2s", "x"}}},
		nil,
		func(args []string) (func(string) string, error) {
			c, err := config.Locker(args)
			if err != nil {
				return nil, err
			}
			return func(n string) string {
				switch n {
				case "level":
					return c.LogLevel()
				case "port":
					return text(c.Port)
				case "ca":
					return text(c.ServerCA)
				case "key":
					return text(c.ServerKey)
				case "crt":
					return text(c.ServerCRT)
				case "insecure":
					return strconv.FormatBool(*c.InsecureHttp)
				}
				return c.LockDefaultTimeout.String()
			}, nil
		},
	},
	{
		"limiter",
		[]setting{level("LOG_LEVEL"), port("LIMITER_PORT", "8082"), path("ca", "server-ca", "LIMITER_SERVER_CA"), path("key", "server-key", "LIMITER_SERVER_KEY"), path("crt", "server-crt", "LIMITER_SERVER_CRT"),
			insecure("LIMITER_INSECURE_HTTP")},
		[]setting{path("url", "locker-url", "LIMITER_LOCKER_URL"), path("cca", "locker-client-ca", "LIMITER_LOCKER_CA"), path("ckey", "locker-client-key", "LIMITER_LOCKER_CLIENT_KEY"), path("ccrt", "locker-client-crt", "LIMITER_LOCKER_CLIENT_CRT")},
		func(args []string) (func(string) string, error) {
			c, err := config.Limiter(args)
			if err != nil {
				return nil, err
			}
			return func(n string) string {
				switch n {
				case "level":
					return c.LogLevel()
				case "port":
					return text(c.LimiterPort)
				case "ca":
					return text(c.ServerCA)
				case "key":
					return text(c.ServerKey)
				case "crt":
					return text(c.ServerCRT)
				case "insecure":
					return strconv.FormatBool(*c.InsecureHttp)
				case "url":
					return text(c.LockerURL)
				case "cca":
					return text(c.LockerClientCA)
				case "ckey":
					return text(c.LockerClientKey)
				}
				return text(c.LockerClientCRT)
			}, nil
		},
	},
	{
		"willow",
		[]setting{level("LOG_LEVEL"), port("WILLOW_PORT", "8080"), path("ca", "server-ca", "WILLOW_CA"), path("key", "server-key", "WILLOW_SERVER_KEY"), path("crt", "server-crt", "WILLOW_SERVER_CRT"),
			insecure("WILLOW_INSECURE_HTTP"), {"storage", "storage-type", "STORAGE_TYPE", "memory", []string{"", "memory", "tape"}, []string{"", "memory", "tape"}}},
		[]setting{path("url", "limiter-url", "WILLOW_LIMITER_URL"), path("cca", "limiter-client-ca", "WILLOW_LIMITER_CA"), path("ckey", "limiter-client-key", "WILLOW_LIMITER_CLIENT_KEY"), path("ccrt", "limiter-client-crt", "WILLOW_LIMITER_CLIENT_CRT")},
		func(args []string) (func(string) string, error) {
			c, err := config.Willow(args)
			if err != nil {
				return nil, err
			}
			return func(n string) string {
				switch n {
				case "level":
					return c.LogLevel()
				case "port":
					return text(c.Port)
				case "ca":
					return text(c.ServerCA)
				case "key":
					return text(c.ServerKey)
				case "crt":
					return text(c.ServerCRT)
				case "insecure":
					return strconv.FormatBool(*c.InsecureHttp)
				case "storage":
					return text(c.StorageConfig.Type)
				case "url":
					return text(c.LimiterURL)
				case "cca":
					return text(c.LimiterClientCA)
				case "ckey":
					return text(c.LimiterClientKey)
				}
				return text(c.LimiterClientCRT)
			}, nil
		},
	},
}

func (s service) all() []setting { return append(append([]setting{}, s.server...), s.client...) }

// invalid says why a set of values is refused.
func invalid(want map[string]string) string {
	if l := want["level"]; l != "debug" && l != "info" {
		return "log level"
	}
	if n, err := strconv.Atoi(want["port"]); err != nil || n > 65535 {
		return "port"
	}
	if want["insecure"] == "true" {
		for _, k := range []string{"ca", "key", "crt"} {
			if want[k] != "" {
				return k + " with insecure http"
			}
		}
	} else {
		for _, k := range []string{"key", "crt"} {
			if want[k] == "" {
				return "no " + k
			}
		}
	}
	if t, ok := want["timeout"]; ok {
		if d, err := time.ParseDuration(t); err != nil || d <= 0 {
			return "timeout"
		}
	}
	if t, ok := want["storage"]; ok && t != "memory" {
		return "storage"
	}
	return ""
}

// pick is one choice for every setting: [flag value, env value].
func (s service) check(sets []setting, pick [][2]string) {
	var args []string
	want := map[string]string{}
	for i, x := range sets {
		f, e := pick[i][0], pick[i][1]
		if f != "" {
			args = append(args, "-"+x.flag+"="+f)
		}
		if e != "" {
			os.Setenv(x.env, e)
		}
		want[x.name] = x.value(f, e)
	}
	get, err := s.parse(args)
	for i, x := range sets {
		if pick[i][1] != "" {
			os.Unsetenv(x.env)
		}
	}
	if why := invalid(want); why != "" {
		if err == nil {
			hx.FailH("an invalid configuration is accepted: "+s.name+": "+why, "%v %v", args, pick)
		}
	} else if err != nil {
		hx.FailH("a valid configuration is refused: "+s.name, "%v %v: %v", args, pick, err)
	} else {
		for _, x := range sets {
			if g := get(x.name); g != want[x.name] {
				hx.FailH("a setting does not get its value: "+s.name+": "+x.flag, "%v %v: got %q, expected %q", args, pick, g, want[x.name])
			}
		}
	}
}

// each calls f with every combination of the states of the settings from i on.
func each(sets []setting, pick [][2]string, i int, f func()) {
	if i == len(sets) {
		f()
		return
	}
	for _, fl := range sets[i].flags {
		for _, e := range sets[i].envs {
			pick[i] = [2]string{fl, e}
			each(sets, pick, i+1, f)
		}
	}
}

func scen(name string, f func()) {
	s := hx.Seq("P24", name, f)
	s.MaxSteps = 1 << 50
	s.Horizon = 1 << 60
}

func main() {
	for _, s := range services {
		for _, x := range s.all() {
			os.Unsetenv(x.env)
		}
	}
	if len(os.Args) == 3 && os.Args[1] == "usage" {
		for _, s := range services {
			if s.name == os.Args[2] {
				s.parse([]string{"-h"})
			}
		}
		os.Exit(0)
	}
	hx.Main()
}

var names = regexp.MustCompile(`\b[A-Z]+(_[A-Z]+)+\b`)

func init() {
	for _, s := range services {
		s := s
		scen("cf/server/"+s.name, func() {
			hx.Reset()
			sets := s.all()
			pick := make([][2]string, len(sets))
			// the states of the first setting, and all or nothing of the client's
			a, b := vs.Choose(len(sets[0].flags)), vs.Choose(len(sets[0].envs))
			pick[0] = [2]string{sets[0].flags[a], sets[0].envs[b]}
			n := 0
			for _, k := range []int{0, 1} {
				for i, x := range s.client {
					pick[len(s.server)+i] = [2]string{x.flags[k], x.envs[k]}
				}
				each(sets[:len(s.server)], pick, 1, func() { s.check(sets, pick); n++ })
				if s.client == nil {
					break
				}
			}
			vs.Account(int64(n), int64(n), true, len(sets))
		})
		if s.client != nil {
			scen("cf/client/"+s.name, func() {
				hx.Reset()
				sets := s.all()
				pick := make([][2]string, len(sets))
				sec := vs.Choose(2)
				for i, x := range s.server {
					if sec == 0 && x.name == "insecure" {
						pick[i] = [2]string{"true", ""}
					}
					if sec == 1 && (x.name == "key" || x.name == "crt") {
						pick[i] = [2]string{x.flags[1], ""}
					}
				}
				n := 0
				each(sets, pick, len(s.server), func() { s.check(sets, pick); n++ })
				vs.Account(int64(n), int64(n), true, len(sets))
			})
		}
		// the variables that the help names are the ones that are used
		scen("cf/help/"+s.name, func() {
			hx.Reset()
			exe, _ := os.Executable()
			out, err := exec.Command(exe, "usage", s.name).CombinedOutput()
			if err != nil {
				hx.FailH("the help cannot be shown: "+s.name, "%v\n%s", err, out)
			}
			var at *setting
			for _, l := range strings.Split(string(out), "\n") {
				if t := strings.Fields(l); len(t) > 0 && strings.HasPrefix(l, "  -") {
					at = nil
					for _, x := range s.all() {
						if "-"+x.flag == t[0] {
							x := x
							at = &x
						}
					}
				}
				if m := names.FindAllString(l, -1); at != nil && len(m) > 0 && !strings.Contains(" "+strings.Join(m, " ")+" ", " "+at.env+" ") {
					hx.FailH("the help names a variable that is not used: "+s.name+": "+at.flag, "%q instead of %s", m, at.env)
				}
			}
			vs.Account(int64(len(s.all())), int64(len(s.all())), true, 1)
		})
	}
	scen("cf/clients", func() {
		hx.Reset()
		urls := []string{"", "http://127.0.0.1:1"}
		cas := []string{"", "ca.crt", "otherca.crt", "garbage", "missing"}
		crts := []string{"", "client.crt", "server.crt", "garbage", "missing"}
		keys := []string{"", "client.key", "server.key", "garbage", "missing"}
		at := func(f string) string {
			if f == "" {
				return ""
			}
			return pem.Path(f)
		}
		n := 0
		for _, u := range urls {
			for _, ca := range cas {
				for _, crt := range crts {
					for _, key := range keys {
						n++
						cfg := &clients.Config{URL: u, CAFile: at(ca), ClientCRTFile: at(crt), ClientKeyFile: at(key)}
						c, err := clients.NewHTTPClient(cfg)
						pair := (crt == "client.crt" || crt == "server.crt") && strings.TrimSuffix(crt, ".crt") == strings.TrimSuffix(key, ".key")
						valid := u != "" && (ca == "" && crt == "" && key == "" || pair && (ca == "" || ca == "ca.crt"))
						what := fmt.Sprintf("url %q ca %q crt %q key %q", u, ca, crt, key)
						switch {
						case !valid && err == nil:
							hx.FailH("an invalid client configuration is accepted", "%s", what)
						case valid && err != nil:
							hx.FailH("a valid client configuration is refused", "%s: %v", what, err)
						case valid:
							t := tlsOf(c)
							if crt != "" && (t == nil || len(t.Certificates) != 1 || fmt.Sprint(t.Certificates[0].Certificate) != fmt.Sprint(cfg.Cert().Certificate) || len(t.Certificates[0].Certificate) == 0) {
								hx.FailH("a client does not use the certificate it is configured with", "%s", what)
							}
							if ca != "" && (t == nil || t.RootCAs == nil || !t.RootCAs.Equal(cfg.RootCAs())) {
								hx.FailH("a client does not use the CA it is configured with", "%s", what)
							}
							if ca == "" && t != nil && t.RootCAs != nil {
								hx.FailH("a client uses a CA it is not configured with", "%s", what)
							}
							if t != nil && t.InsecureSkipVerify {
								hx.FailH("a client does not check the server", "%s", what)
							}
						}
					}
				}
			}
		}
		vs.Account(int64(n), int64(n), true, 4)
	})
}

func tlsOf(c *http.Client) *tls.Config {
	switch t := c.Transport.(type) {
	case *http2.Transport:
		return t.TLSClientConfig
	case *http.Transport:
		return t.TLSClientConfig
	}
	return nil
}
