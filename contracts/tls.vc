// ---- C27: TLS configuration of the tool ----
ghost caread: bool
ghost capool: *x509.CertPool
ghost certstat: bool
ghost certok: bool
ghost keystat: bool
ghost keyok: bool
ghost pairloaded: bool
trusted crypto/x509.NewCertPool()(p)
  pure
  ensures fresh: p != nil
fnspec ext (*crypto/x509.CertPool).AppendCertsFromPEM quiet
unit (tool.tlsConfig).Parse(c)(r, err)
  use
  props C27
  begin caread = false
  begin capool = nil
  begin certstat = false
  begin keystat = false
  begin pairloaded = false
  modifies caread, capool, certstat, certok, keystat, keyok, pairloaded
  on os.ReadFile(name, b, e)
    assert ca: name == c.CA
    set caread = e == nil
  on (*crypto/x509.CertPool).AppendCertsFromPEM(p, b, ok)
    assert read: caread
    set capool = p
  on os.Stat(name, fi, e)
    set certstat = certstat || name == c.Cert
    set certok = ite(name == c.Cert, e == nil, certok)
    set keystat = keystat || name == c.Key
    set keyok = ite(name == c.Key, e == nil, keyok)
  on crypto/tls.LoadX509KeyPair(cert, key, pair, e)
    assert pair: cert == c.Cert && key == c.Key
    set pairloaded = e == nil
  ensures verify: err == nil ==> r != nil && r.InsecureSkipVerify == !c.Verify
  ensures ca: err == nil && c.Verify ==> caread && capool != nil && r.RootCAs == capool
  ensures client: err == nil ==> pairloaded || certstat && keystat && !certok && !keyok
  ensures clientcert: err == nil && pairloaded ==> len(r.Certificates) == 1
  ensures noclient: err == nil && !pairloaded ==> len(r.Certificates) == 0
  ensures failed: err != nil ==> r == nil
  cover secure: err == nil && c.Verify
  cover insecure: err == nil && !c.Verify

// main hands exactly the requested settings to Parse, and uses what Parse returned
ghost tlsparsed: bool
ghost tlsjson: *main.connectJSON
ghost tlsflags: bool
ghost tlsres: *tls.Config
trusted tool.logOnly(ctx, factory)
  modifies all
trusted tool.serveRecords(ctx, factory)
  modifies all
trusted tool.serveFixture(ctx, factory)
  modifies all
unit tool.main()
  props C27
  safety NONE
  begin tlsparsed = false
  begin tlsres = nil
  begin tlsjson = nil
  requires main.flags != nil
  modifies all
  on encoding/json.Unmarshal(b, v, err)
    set tlsjson = ite(is(v, *main.connectJSON), as(v, *main.connectJSON), tlsjson)
  on (tool.tlsConfig).Parse(c, r, err)
    assert settings: tlsjson != nil && c == tlsjson.Tls || c.CA == main.TLSCACert && c.Cert == main.TLSCert && c.Key == main.TLSKey && c.Verify == main.TLSVerify
    set tlsparsed = true
    set tlsflags = main.TLSCert == c.Cert
    set tlsres = r
  on session.NewContainerFactory(addr, cfg, f)
    assert used: cfg.TLSConfig == tlsres
    assert flags: main.TLSCert != "" ==> tlsparsed && tlsflags

// the flags are bound to the settings they name, and verification is the default
ghost tlsflagset: bool
unit tool.init#1()
  props C27
  safety NONE
  requires main.flags != nil
  begin tlsflagset = false
  modifies all
  on (*flag.FlagSet).BoolVar(fs, p, name, def, usage)
    assert verify: (p == addr(main.TLSVerify)) == (name == "tls-verify") && (name == "tls-verify" ==> def)
    set tlsflagset = tlsflagset || name == "tls-verify"
  on (*flag.FlagSet).StringVar(fs, p, name, def, usage)
    assert files: (p == addr(main.TLSCACert)) == (name == "ca") && (p == addr(main.TLSCert)) == (name == "cert") && (p == addr(main.TLSKey)) == (name == "key")
    assert default: (name == "ca" || name == "cert" || name == "key") ==> def == ""
  on (*flag.FlagSet).Parse(fs, args, err)
    assert before: tlsflagset
