package boltnd

import (
	"errors"
	"net"
	"time"

	"github.com/btcsuite/btclog"
	"github.com/carlakc/boltnd/offers"
	"github.com/carlakc/boltnd/onionmsg"
	"github.com/carlakc/boltnd/routes"
	"github.com/carlakc/boltnd/rpcserver"
	"github.com/carlakc/boltnd/verifvc"
	"github.com/lightninglabs/lndclient"
	"github.com/lightningnetwork/lnd"
	"github.com/lightningnetwork/lnd/build"
	"github.com/lightningnetwork/lnd/signal"
	"github.com/lightningnetwork/lnd/lncfg"
	"github.com/lightningnetwork/lnd/lnrpc/verrpc"
)

// specVersionOK holds for versions from 0.15.0.
func specVersionOK(v *verrpc.Version) bool {
	if v.AppMajor != 0 {
		return v.AppMajor > 0
	}
	if v.AppMinor != 15 {
		return v.AppMinor > 15
	}
	return v.AppPatch >= 0
}

// sumVersionCompatible is lndclient's comparison of two versions: major, then
// minor, then patch.
//@ summary github.com/lightninglabs/lndclient.AssertVersionCompatible
func sumVersionCompatible(actual, expected *verrpc.Version) error {
	if actual.AppMajor != expected.AppMajor {
		if actual.AppMajor > expected.AppMajor {
			return nil
		}
		return lndclient.ErrVersionIncompatible
	}
	if actual.AppMinor != expected.AppMinor {
		if actual.AppMinor > expected.AppMinor {
			return nil
		}
		return lndclient.ErrVersionIncompatible
	}
	if actual.AppPatch < expected.AppPatch {
		return lndclient.ErrVersionIncompatible
	}
	return nil
}

// contract_configValidate: a client configuration, a version that is new
// enough and a wait that is one.
//@ contract C28 (*Config).Validate
//@ uses sumVersionCompatible
func contract_configValidate(c *Config) {
	verifvc.Requires(c != nil)
	err := c.Validate()
	ok := c.LndClientCfg != nil && c.LndClientCfg.CheckVersion != nil &&
		specVersionOK(c.LndClientCfg.CheckVersion) && c.LNDWait >= 0
	verifvc.Ensures("accepted exactly if usable", (err == nil) == ok)
}

func gen_contract_configValidate(r *verifvc.Rand) []interface{} {
	return []interface{}{genConfig(r)}
}

func genConfig(r *verifvc.Rand) *Config {
	c := &Config{LndClientCfg: genClient(r), LNDRetires: uint8(r.Intn(256))}
	if r.Coin(4) {
		c.LNDRetires = uint8(r.Intn(3))
	}
	switch r.Intn(8) {
	case 0:
		c.LNDWait = -time.Duration(1 + r.Intn(3))
	case 1, 2:
	default:
		c.LNDWait = time.Duration(r.U64() >> 1)
	}
	return c
}

func genClient(r *verifvc.Rand) *lndclient.LndServicesConfig {
	if r.Coin(8) {
		return nil
	}
	c := &lndclient.LndServicesConfig{LndAddress: "host"}
	if r.Coin(8) {
		return c
	}
	c.CheckVersion = &verrpc.Version{AppMinor: 15, BuildTags: []string{"signrpc"}}
	switch r.Intn(5) {
	case 0:
		c.CheckVersion.AppMajor = uint64w(r.Intn(3))
	case 1:
		c.CheckVersion.AppMinor = uint64w(13 + r.Intn(4))
	case 2:
		c.CheckVersion.AppMinor = uint64w(13 + r.Intn(4))
		c.CheckVersion.AppPatch = uint64w(r.Intn(3))
	case 3:
		c.CheckVersion.AppMajor = uint64w(r.Intn(3))
		c.CheckVersion.AppMinor = uint64w(13 + r.Intn(4))
		c.CheckVersion.AppPatch = uint64w(r.Intn(3))
	}
	return c
}

type uint64w = uint32

type strAddr string

func (s strAddr) Network() string { return "tcp" }
func (s strAddr) String() string  { return string(s) }

// contract_lndConfig: the first listener, admin macaroon, certificate and
// network of lnd's configuration.
//@ contract C28 OptionLNDConfig
func contract_lndConfig(listeners []string, mac, tls string, main, test, reg, sim bool, before *Config) {
	verifvc.Requires(before != nil)
	cfg := &lnd.Config{Bitcoin: &lncfg.Chain{MainNet: main, TestNet3: test, RegTest: reg, SimNet: sim}, AdminMacPath: mac, TLSCertPath: tls}
	for _, l := range listeners {
		cfg.RPCListeners = append(cfg.RPCListeners, strAddr(l))
	}
	retries, wait := before.LNDRetires, before.LNDWait
	logs, downs := 0, 0
	before.SetupLogger = func(string, LogRegistration) { logs++ }
	before.RequestShutdown = func() { downs++ }
	err := OptionLNDConfig(cfg)(before)
	verifvc.Ensures("other settings unchanged", before.LNDRetires == retries && before.LNDWait == wait)
	before.SetupLogger("", nil)
	before.RequestShutdown()
	verifvc.Ensures("logger and shutdown unchanged", logs == 1 && downs == 1)
	if len(listeners) == 0 {
		verifvc.Ensures("needs a listener", err != nil)
		return
	}
	if !main && !test && !reg {
		verifvc.Ensures("needs a supported network", err != nil)
		return
	}
	verifvc.Ensures("accepted", err == nil)
	c := before.LndClientCfg
	verifvc.Ensures("first listener", c.LndAddress == listeners[0])
	verifvc.Ensures("admin macaroon", c.CustomMacaroonPath == mac && c.MacaroonDir == "" && c.CustomMacaroonHex == "")
	verifvc.Ensures("certificate", c.TLSPath == tls && c.TLSData == "" && !c.Insecure && !c.SystemCert)
	switch {
	case main:
		verifvc.Ensures("mainnet", c.Network == "mainnet")
	case test:
		verifvc.Ensures("testnet", c.Network == "testnet")
	default:
		verifvc.Ensures("regtest", c.Network == "regtest")
	}
	verifvc.Ensures("waits for lnd", c.BlockUntilChainSynced && c.BlockUntilUnlocked)
	verifvc.Ensures("checks the version", c.CheckVersion != nil && specVersionOK(c.CheckVersion))
}

func gen_contract_lndConfig(r *verifvc.Rand) []interface{} {
	var ls []string
	for i := r.Intn(4); i > 0; i-- {
		ls = append(ls, r.Make("", 1).(string))
	}
	n := r.Intn(6)
	main, test, reg, sim := n == 0, n == 1, n == 2, n == 3
	if n == 4 {
		main, test, reg, sim = r.Bool(), r.Bool(), r.Bool(), r.Bool()
	}
	return []interface{}{ls, r.Make("", 1), r.Make("", 1), main, test, reg, sim, genConfig(r)}
}

// contract_defaultConfig: the default can be used as it is.
//@ contract C28 DefaultConfig (*Config).Validate n=1
//@ uses sumVersionCompatible
func contract_defaultConfig() {
	c := DefaultConfig()
	verifvc.Ensures("usable", c.Validate() == nil)
	verifvc.Ensures("retries and wait", c.LNDRetires == 4 && c.LNDWait == 10*time.Second)
	verifvc.Ensures("minimum version", specVersionOK(c.LndClientCfg.CheckVersion))
}

// contract_options: each option sets what it is for, and nothing else.
//@ contract C28 OptionLNDClient OptionSetupLogger OptionRequestShutdown
func contract_options(c *Config, client *lndclient.LndServicesConfig) {
	verifvc.Requires(c != nil)
	before := *c
	logs, downs := 0, 0
	c.SetupLogger = func(string, LogRegistration) { logs += 10 }
	c.RequestShutdown = func() { downs += 10 }
	given, ok := verifvc.Clone(client).(*lndclient.LndServicesConfig)
	verifvc.Ensures("client option applies", OptionLNDClient(client)(c) == nil)
	verifvc.Ensures("sets the client", c.LndClientCfg == client)
	verifvc.Ensures("the client as it was given", !ok || verifvc.Eq(client, given))
	verifvc.Ensures("client option sets nothing else", c.LNDRetires == before.LNDRetires && c.LNDWait == before.LNDWait)
	c.SetupLogger("", nil)
	c.RequestShutdown()
	verifvc.Ensures("client option keeps the logger and shutdown", logs == 10 && downs == 10)
	logs, downs = 0, 0
	c.SetupLogger = nil
	verifvc.Ensures("shutdown option applies", OptionRequestShutdown(func() { downs++ })(c) == nil)
	c.RequestShutdown()
	verifvc.Ensures("sets the shutdown", downs == 1 && c.SetupLogger == nil)
	verifvc.Ensures("shutdown option sets nothing else", c.LndClientCfg == client && c.LNDRetires == before.LNDRetires && c.LNDWait == before.LNDWait)
	c.RequestShutdown = nil
	verifvc.Ensures("logger option applies", OptionSetupLogger(func(string, LogRegistration) { logs++ })(c) == nil)
	c.SetupLogger("", nil)
	verifvc.Ensures("sets the logger", logs == 1 && downs == 1 && c.RequestShutdown == nil)
	verifvc.Ensures("logger option sets nothing else", c.LndClientCfg == client && c.LNDRetires == before.LNDRetires && c.LNDWait == before.LNDWait)
}

func gen_contract_options(r *verifvc.Rand) []interface{} {
	return []interface{}{genConfig(r), genClient(r)}
}

// contract_newBoltnd: only with options that apply and a usable result, and
// with the settings they make.
//@ contract C28 NewBoltnd (*Config).Validate setupLoggers (*Boltnd).requestShutdown
//@ uses sumVersionCompatible
func contract_newBoltnd(client *lndclient.LndServicesConfig, wait int64, retries uint8, fails1, fails2, fails3 bool, why error) {
	downs, loggers := 0, 0
	names := map[string]int{}
	given, isClient := verifvc.Clone(client).(*lndclient.LndServicesConfig)
	may := func(fails bool) ConfigOption {
		return func(*Config) error {
			if fails {
				return errOption
			}
			return nil
		}
	}
	b, err := NewBoltnd(
		may(fails1),
		OptionLNDClient(client),
		func(c *Config) error { c.LNDWait, c.LNDRetires = time.Duration(wait), retries; return nil },
		may(fails2),
		OptionRequestShutdown(func() { downs++ }),
		OptionSetupLogger(func(name string, _ LogRegistration) { loggers++; names[name]++ }),
		may(fails3),
	)
	bad := fails1 || fails2 || fails3
	ok := !bad && client != nil && client.CheckVersion != nil && specVersionOK(client.CheckVersion) && wait >= 0
	verifvc.Ensures("created exactly if usable", (err == nil) == ok && (b != nil) == ok)
	if !ok {
		return
	}
	verifvc.Ensures("the settings made", b.cfg.LndClientCfg == client && b.cfg.LNDRetires == retries && int64(b.cfg.LNDWait) == wait)
	verifvc.Ensures("nothing done yet", b.started == 0 && b.stopped == 0 && b.lnd == nil && b.rpcServer != nil && downs == 0)
	verifvc.Ensures("the client as it was given", !isClient || verifvc.Eq(client, given))
	verifvc.Ensures("a logger for each subsystem", loggers == 5 && names[Subsystem] == 1 && names[rpcserver.Subsystem] == 1 &&
		names[onionmsg.Subsystem] == 1 && names[offers.Subsystem] == 1 && names[routes.Subsystem] == 1)
	b.requestShutdown(why)
	verifvc.Ensures("asks to be shut down", downs == 1)
}

// contract_lndLogger: loggers of the names asked for, registered with lnd's.
//@ bounded C28 OptionLNDLogger setupLoggers n=200
func contract_lndLogger(c *Config, names []string) {
	verifvc.Requires(c != nil)
	given := *c
	downs := 0
	c.RequestShutdown = func() { downs++ }
	root := build.NewRotatingLogWriter()
	verifvc.Ensures("applies", OptionLNDLogger(root, signal.Interceptor{})(c) == nil)
	verifvc.Ensures("sets the logger", c.SetupLogger != nil)
	for _, name := range names {
		before := len(root.SubLoggers())
		_, had := root.SubLoggers()[name]
		var got []btclog.Logger
		c.SetupLogger(name, func(l btclog.Logger) { got = append(got, l) })
		_, has := root.SubLoggers()[name]
		verifvc.Ensures("registered once", len(got) == 1 && got[0] != nil && has)
		verifvc.Ensures("nothing else registered", had && len(root.SubLoggers()) == before || !had && len(root.SubLoggers()) == before+1)
	}
	c.RequestShutdown()
	verifvc.Ensures("sets nothing else", downs == 1 && c.LndClientCfg == given.LndClientCfg && c.LNDRetires == given.LNDRetires && c.LNDWait == given.LNDWait)
}

func gen_contract_lndLogger(r *verifvc.Rand) []interface{} {
	var names []string
	for i := r.Intn(4); i > 0; i-- {
		names = append(names, []string{"B12-A", "B12-B", Subsystem, ""}[r.Intn(4)])
	}
	return []interface{}{genConfig(r), names}
}

var errOption = errors.New("option fails")

func gen_contract_newBoltnd(r *verifvc.Rand) []interface{} {
	c := genConfig(r)
	return []interface{}{c.LndClientCfg, int64(c.LNDWait), c.LNDRetires, r.Coin(6), r.Coin(6), r.Coin(6), error(errOption)}
}

var _ net.Addr
var _ = onionmsg.Subsystem
var _ = rpcserver.Subsystem
