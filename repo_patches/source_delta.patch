From 21971987029b042c7755729abb2d3572635c7fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:32 +0000
Subject: [PATCH 01/19] fix: use the user's parameters when translating the
 SMEFT output of match_run

match_run translated the input with the 'parameters' option but the output
of SMEFT -> SMEFT runs with the default parameters.
---
 wilson/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/classes.py b/wilson/classes.py
index 379d3dd..e43e1a1 100644
--- a/wilson/classes.py
+++ b/wilson/classes.py
@@ -236,7 +236,7 @@ class Wilson(ConfigurableClass):
             if eft == 'SMEFT':
                 smeft = SMEFT(self.wc.translate('Warsaw', sectors=translate_sectors, parameters=self.parameters))
                 # if input and output EFT ist SMEFT, just run.
-                wc_out = smeft.run(scale, accuracy=smeft_accuracy).translate(basis)
+                wc_out = smeft.run(scale, accuracy=smeft_accuracy).translate(basis, parameters=self.parameters)
                 self._set_cache('all', scale, 'SMEFT', wc_out.basis, wc_out)
                 return wc_out
             else:
-- 
2.43.0


From 81d924df80b2824b69dbe5a996d09274fb0ed1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:20 +0000
Subject: [PATCH 02/19] fix: do not modify the dictionary passed to set_option
 and set_default_option

The deprecated parameter 'delta' was renamed in the caller's own dictionary,
even if the option was rejected afterwards.
---
 wilson/classes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wilson/classes.py b/wilson/classes.py
index e43e1a1..73ff794 100644
--- a/wilson/classes.py
+++ b/wilson/classes.py
@@ -56,8 +56,8 @@ class ConfigurableClass:
                           "Please use 'gamma' instead. Support for using "
                           "'delta' will be removed in the future.",
                           FutureWarning)
-            value['gamma'] = value['delta']
-            del value['delta']
+            value = dict(value)
+            value['gamma'] = value.pop('delta')
         ####################################################################
         cls._default_options.update(cls._option_schema({key: value}))
 
@@ -75,8 +75,8 @@ class ConfigurableClass:
                           "Please use 'gamma' instead. Support for using "
                           "'delta' will be removed in the future.",
                           FutureWarning)
-            value['gamma'] = value['delta']
-            del value['delta']
+            value = dict(value)
+            value['gamma'] = value.pop('delta')
         ####################################################################
         self._options.update(self._option_schema({key: value}))
         self.clear_cache()
-- 
2.43.0


From f0d040b316e57dd1b9c47e30fbc0f60bd1867fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:20 +0000
Subject: [PATCH 03/19] fix: let the hash of a Wilson instance depend on the
 values of its options

Only the names of the options, which never change, entered the hash.
---
 wilson/classes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wilson/classes.py b/wilson/classes.py
index 73ff794..aab2d48 100644
--- a/wilson/classes.py
+++ b/wilson/classes.py
@@ -153,7 +153,9 @@ class Wilson(ConfigurableClass):
         """Return a hash of the `Wilson` instance.
         The hash changes when Wilson coefficient values or options are modified.
         It assumes that `wcxf.WC` instances are not modified after instantiation."""
-        return hash((self.wc, frozenset(self._options)))
+        options = {k: frozenset(v.items()) if isinstance(v, dict) else v
+                   for k, v in self._options.items()}
+        return hash((self.wc, frozenset(options.items())))
 
     @classmethod
     def from_wc(cls, wc):
-- 
2.43.0


From a01f2c7b784a1fe6d84540ecbfdb9ba69fac4e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:34 +0000
Subject: [PATCH 04/19] fix: never keep results for old options in the cache of
 a Wilson instance

An interrupt in set_option between the change and the clearing of the cache,
or a match_run still in flight in another thread, left results for the old
options in the cache. Two threads could also make _set_cache fail with a
KeyError when the cache was replaced between its lookups.
---
 wilson/classes.py | 51 ++++++++++++++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 20 deletions(-)

diff --git a/wilson/classes.py b/wilson/classes.py
index aab2d48..8532d49 100644
--- a/wilson/classes.py
+++ b/wilson/classes.py
@@ -78,7 +78,11 @@ class ConfigurableClass:
             value = dict(value)
             value['gamma'] = value.pop('delta')
         ####################################################################
-        self._options.update(self._option_schema({key: value}))
+        option = self._option_schema({key: value})
+        # clear the cache before the change as well, such that it cannot
+        # survive if the call is interrupted after the change
+        self.clear_cache()
+        self._options.update(option)
         self.clear_cache()
 
     def get_option(self, key):
@@ -216,7 +220,10 @@ class Wilson(ConfigurableClass):
           can speed up the computation significantly if only a small number of sectors
           is of interest. The sector names are defined in the WCxf basis file.
         """
-        cached = self._get_from_cache(sector=sectors, scale=scale, eft=eft, basis=basis)
+        # keep using this cache even if it is cleared in the meantime: results
+        # for the old options must not end up in the new cache
+        cache = self._cache
+        cached = self._get_from_cache(sector=sectors, scale=scale, eft=eft, basis=basis, cache=cache)
         if cached is not None:
             return cached
         if sectors  == 'all':
@@ -231,7 +238,7 @@ class Wilson(ConfigurableClass):
             return self.wc  # nothing to do
         if self.wc.eft == eft and scale == self.wc.scale:
             wc_out = self.wc.translate(basis, sectors=translate_sectors, parameters=self.parameters)  # only translation necessary
-            self._set_cache(sectors, scale, eft, basis, wc_out)
+            self._set_cache(sectors, scale, eft, basis, wc_out, cache=cache)
             return wc_out
         if self.wc.eft == 'SMEFT':
             smeft_accuracy = self.get_option('smeft_accuracy')
@@ -239,18 +246,18 @@ class Wilson(ConfigurableClass):
                 smeft = SMEFT(self.wc.translate('Warsaw', sectors=translate_sectors, parameters=self.parameters))
                 # if input and output EFT ist SMEFT, just run.
                 wc_out = smeft.run(scale, accuracy=smeft_accuracy).translate(basis, parameters=self.parameters)
-                self._set_cache('all', scale, 'SMEFT', wc_out.basis, wc_out)
+                self._set_cache('all', scale, 'SMEFT', wc_out.basis, wc_out, cache=cache)
                 return wc_out
             else:
                 # if SMEFT -> WET-x: match to WET at the EW scale
-                wc_ew = self._get_from_cache(sector='all', scale=scale_ew, eft='WET', basis='JMS')
+                wc_ew = self._get_from_cache(sector='all', scale=scale_ew, eft='WET', basis='JMS', cache=cache)
                 if wc_ew is None:
                     if self.wc.scale == scale_ew:
                         wc_ew = self.wc.match('WET', 'JMS', parameters=self.matching_parameters)  # no need to run
                     else:
                         smeft = SMEFT(self.wc.translate('Warsaw', parameters=self.parameters))
                         wc_ew = smeft.run(scale_ew, accuracy=smeft_accuracy).match('WET', 'JMS', parameters=self.matching_parameters)
-                self._set_cache('all', scale_ew, wc_ew.eft, wc_ew.basis, wc_ew)
+                self._set_cache('all', scale_ew, wc_ew.eft, wc_ew.basis, wc_ew, cache=cache)
                 wet = WETrunner(wc_ew, **self._wetrun_opt())
         elif self.wc.eft in ['WET', 'WET-4', 'WET-3']:
             wet = WETrunner(self.wc.translate('JMS', parameters=self.parameters, sectors=translate_sectors), **self._wetrun_opt())
@@ -258,19 +265,19 @@ class Wilson(ConfigurableClass):
             raise ValueError(f"Input EFT {self.wc.eft} unknown or not supported")
         if eft == wet.eft:  # just run
             wc_out = wet.run(scale, sectors=sectors).translate(basis, sectors=translate_sectors, parameters=self.parameters)
-            self._set_cache(sectors, scale, eft, basis, wc_out)
+            self._set_cache(sectors, scale, eft, basis, wc_out, cache=cache)
             return wc_out
         elif eft == 'WET-4' and wet.eft == 'WET':  # match at mb
             wc_mb = wet.run(mb, sectors=sectors).match('WET-4', 'JMS', parameters=self.matching_parameters)
             wet4 = WETrunner(wc_mb, **self._wetrun_opt())
             wc_out = wet4.run(scale, sectors=sectors).translate(basis, sectors=translate_sectors, parameters=self.parameters)
-            self._set_cache(sectors, scale, 'WET-4', basis, wc_out)
+            self._set_cache(sectors, scale, 'WET-4', basis, wc_out, cache=cache)
             return wc_out
         elif eft == 'WET-3' and wet.eft == 'WET-4':  # match at mc
             wc_mc = wet.run(mc, sectors=sectors).match('WET-3', 'JMS', parameters=self.matching_parameters)
             wet3 = WETrunner(wc_mc, **self._wetrun_opt())
             wc_out = wet3.run(scale, sectors=sectors).translate(basis, sectors=translate_sectors, parameters=self.parameters)
-            self._set_cache(sectors, scale, 'WET-3', basis, wc_out)
+            self._set_cache(sectors, scale, 'WET-3', basis, wc_out, cache=cache)
             return wc_out
         elif eft == 'WET-3' and wet.eft == 'WET':  # match at mb and mc
             wc_mb = wet.run(mb, sectors=sectors).match('WET-4', 'JMS', parameters=self.matching_parameters)
@@ -278,7 +285,7 @@ class Wilson(ConfigurableClass):
             wc_mc = wet4.run(mc, sectors=sectors).match('WET-3', 'JMS', parameters=self.matching_parameters)
             wet3 = WETrunner(wc_mc, **self._wetrun_opt())
             wc_out = wet3.run(scale, sectors=sectors).translate(basis, sectors=translate_sectors, parameters=self.parameters)
-            self._set_cache(sectors, scale, 'WET-3', basis, wc_out)
+            self._set_cache(sectors, scale, 'WET-3', basis, wc_out, cache=cache)
             return wc_out
         else:
             raise ValueError(f"Running from {wet.eft} to {eft} not implemented")
@@ -286,23 +293,27 @@ class Wilson(ConfigurableClass):
     def clear_cache(self):
         self._cache = {}
 
-    def _get_from_cache(self, sector, scale, eft, basis):
+    def _get_from_cache(self, sector, scale, eft, basis, cache=None):
         """Try to load a set of Wilson coefficients from the cache, else return
         None."""
+        if cache is None:
+            cache = self._cache
         try:
-            return self._cache[eft][scale][basis][sector]
+            return cache[eft][scale][basis][sector]
         except KeyError:
             return None
 
-    def _set_cache(self, sector, scale, eft, basis, wc_out):
-        if eft not in self._cache:
-            self._cache[eft] = {scale: {basis: {sector: wc_out}}}
-        elif scale not in self._cache[eft]:
-            self._cache[eft][scale] = {basis: {sector: wc_out}}
-        elif basis not in self._cache[eft][scale]:
-            self._cache[eft][scale][basis] = {sector: wc_out}
+    def _set_cache(self, sector, scale, eft, basis, wc_out, cache=None):
+        if cache is None:
+            cache = self._cache
+        if eft not in cache:
+            cache[eft] = {scale: {basis: {sector: wc_out}}}
+        elif scale not in cache[eft]:
+            cache[eft][scale] = {basis: {sector: wc_out}}
+        elif basis not in cache[eft][scale]:
+            cache[eft][scale][basis] = {sector: wc_out}
         else:
-            self._cache[eft][scale][basis][sector] = wc_out
+            cache[eft][scale][basis][sector] = wc_out
 
 
 class RGsolution:
-- 
2.43.0


From d2a1efc903729525db76685e1888a3b5799f3763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:31 +0000
Subject: [PATCH 05/19] fix: raise an error if the integration of the SMEFT
 RGEs stops early

solve_ivp does not raise if it cannot reach the final scale. The values at
the scale where it gave up were returned as the result at the final scale.
---
 wilson/run/smeft/rge.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wilson/run/smeft/rge.py b/wilson/run/smeft/rge.py
index bd0fb7e..05272b7 100644
--- a/wilson/run/smeft/rge.py
+++ b/wilson/run/smeft/rge.py
@@ -29,6 +29,9 @@ def _smeft_evolve(C_in, scale_in, scale_out, newphys=True, **kwargs):
     sol = solve_ivp(fun=fun,
                     t_span=(log(scale_in), log(scale_out)),
                     y0=y0, **kwargs)
+    if not sol.success:
+        raise RuntimeError("Solving the SMEFT RGEs from scale {} to {} failed: {}"
+                           .format(scale_in, scale_out, sol.message))
     return sol
 
 
-- 
2.43.0


From 00d2061343dd4f82660503f69ba3b6cc9a373566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:31 +0000
Subject: [PATCH 06/19] fix: report a root finder failure in get_gpbar as such

brentq raises RuntimeError if it does not converge and ValueError without a
sign change; scipy.optimize.nonlin no longer exists in current scipy, so that
the error handler itself failed with an AttributeError.
---
 wilson/run/smeft/smpar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/run/smeft/smpar.py b/wilson/run/smeft/smpar.py
index fe387f1..f8b7ceb 100644
--- a/wilson/run/smeft/smpar.py
+++ b/wilson/run/smeft/smpar.py
@@ -92,7 +92,7 @@ def get_gpbar(ebar, gbar, v, C):
             return (ebar_calc - ebar).real
         try:
             gpbar = scipy.optimize.brentq(f0, 0, 3)
-        except (scipy.optimize.nonlin.NoConvergence, ValueError) as e:
+        except (RuntimeError, ValueError) as e:
             raise ValueError("No solution for gp found. This problem can be caused by very large values for one or several Wilson coefficients.")
     return gpbar * (1 - C['phiB'].real * (v**2))
 
-- 
2.43.0


From b9d880987592e5b66955e6e4c6c9e9b263199e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:33 +0000
Subject: [PATCH 07/19] fix: register EFTs, bases, translators and matchers
 only when they are complete

---
 wilson/wcxf/classes.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/wilson/wcxf/classes.py b/wilson/wcxf/classes.py
index db63400..becd671 100644
--- a/wilson/wcxf/classes.py
+++ b/wilson/wcxf/classes.py
@@ -138,8 +138,8 @@ class NamedInstanceClass(metaclass=NamedInstanceMetaclass):
     def __init__(self, _name):
         if not hasattr(self.__class__, 'instances'):
             self.__class__.instances = OrderedDict()
-        self.__class__.instances[_name] = self
         self._name = _name
+        self.__class__.instances[_name] = self
 
     @classmethod
     def get_instance(cls, _name):
@@ -198,9 +198,10 @@ class EFT(WCxf, NamedInstanceClass):
         """Instantiate the EFT file object."""
         self.eft = eft
         self.sectors = sectors
-        super().__init__(eft)
         for k, v in kwargs.items():
             setattr(self, k, v)
+        # register the instance only once it is complete
+        super().__init__(eft)
 
     @property
     def known_bases(self):
@@ -219,7 +220,6 @@ class Basis(WCxf, NamedInstanceClass):
         """Instantiate the basis file object."""
         self.eft = eft
         self.basis = basis
-        super().__init__((eft, basis))
         for k, v in kwargs.items():
             setattr(self, k, v)
         if hasattr(self, 'parent'):
@@ -231,6 +231,8 @@ class Basis(WCxf, NamedInstanceClass):
         else:
             self.sectors = sectors
         self._all_wcs = None
+        # register the instance only once it is complete
+        super().__init__((eft, basis))
 
     @property
     def known_translators(self):
@@ -480,11 +482,11 @@ class Translator(NamedInstanceClass):
     """Class for translating between different bases of the same EFT."""
     def __init__(self, eft, from_basis, to_basis, function):
         """Initialize the Translator instance."""
-        super().__init__((eft, from_basis, to_basis))
         self.eft = eft
         self.from_basis = from_basis
         self.to_basis = to_basis
         self.function = function
+        super().__init__((eft, from_basis, to_basis))
 
     def translate(self, WC_in, parameters=None, sectors=None):
         r"""Translate a WC object from `from_basis` to `to_basis`.
@@ -511,12 +513,12 @@ class Matcher(NamedInstanceClass):
     """Class for matching from a UV to an IR EFT."""
     def __init__(self, from_eft, from_basis, to_eft, to_basis, function):
         """Initialize the Matcher instance."""
-        super().__init__((from_eft, from_basis, to_eft, to_basis))
         self.from_eft = from_eft
         self.from_basis = from_basis
         self.to_eft = to_eft
         self.to_basis = to_basis
         self.function = function
+        super().__init__((from_eft, from_basis, to_eft, to_basis))
 
     def match(self, WC_in, parameters=None):
         """Translate a WC object in EFT `from_eft` and basis `from_basis`
-- 
2.43.0


From 9fec467cb5f330c420e67544d49046ad4bff86fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:02 +0000
Subject: [PATCH 08/19] fix: validate bases with any behaviour of the latex
 process and always remove its directory

---
 wilson/wcxf/classes.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/wilson/wcxf/classes.py b/wilson/wcxf/classes.py
index becd671..1722ed5 100644
--- a/wilson/wcxf/classes.py
+++ b/wilson/wcxf/classes.py
@@ -66,6 +66,15 @@ def _testtex(s, delete=True):
     \end{document}"""
     doc = _preamble + s + _enddoc
     tmpd = tempfile.mkdtemp()
+    try:
+        return _compile_tex(doc, tmpd)
+    finally:
+        if delete:
+            shutil.rmtree(tmpd)
+
+
+def _compile_tex(doc, tmpd):
+    """Compile the LaTeX document `doc` in the directory `tmpd`."""
     tmpf = os.path.join(tmpd, 'textest.tex')
     with open(tmpf, 'w') as f:
         f.write(doc)
@@ -83,10 +92,11 @@ def _testtex(s, delete=True):
     logf = os.path.join(tmpd, 'textest.log')
     res['log'] = ''
     try:
-        with open(logf) as f:
+        # a log is not necessarily valid UTF-8
+        with open(logf, errors='replace') as f:
             logl = f.readlines()
     except FileNotFoundError:
-        pass
+        logl = []
     fail = False
     for i, l in enumerate(logl):
         if 'Undefined control sequence' in l or 'Emergency stop' in l:
@@ -101,8 +111,6 @@ def _testtex(s, delete=True):
                 l = logl[i]
             except IndexError:
                 break
-    if delete:
-        shutil.rmtree(tmpd)
     return res
 
 
-- 
2.43.0


From 287c08a4df57d0987bffb17267bb95735d33b56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:02 +0000
Subject: [PATCH 09/19] fix: read the EOS parameter files in a defined order

---
 wilson/wcxf/converters/eos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/wcxf/converters/eos.py b/wilson/wcxf/converters/eos.py
index 9a91fca..c5b8151 100644
--- a/wilson/wcxf/converters/eos.py
+++ b/wilson/wcxf/converters/eos.py
@@ -11,7 +11,7 @@ def get_sm_wcs(eos_parameter_dir):
     """Read SM contributions to EOS Wilson coefficients from the EOS
     installation parameter directory and return them as a dictionary."""
     all_wcs = {}
-    yamlfiles = glob.glob(os.path.join(eos_parameter_dir, '*.yaml'))
+    yamlfiles = sorted(glob.glob(os.path.join(eos_parameter_dir, '*.yaml')))
     for yamlfile in yamlfiles:
         with open(yamlfile) as f:
             wcs = yaml.safe_load(f)
-- 
2.43.0


From cc8860332a658e4e9528e79753bff1869ba05a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 10/19] fix: let the command line tools report errors in their
 exit status

---
 wilson/wcxf/cli.py | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/wilson/wcxf/cli.py b/wilson/wcxf/cli.py
index 491278f..5d90966 100755
--- a/wilson/wcxf/cli.py
+++ b/wilson/wcxf/cli.py
@@ -7,6 +7,17 @@ import yaml
 import pylha
 
 
+def _finish(stream):
+    """Complete writing to an output stream.
+
+    Data that could not be written must lead to an error here, as errors during
+    interpreter shutdown do not change the exit status."""
+    if stream is sys.stdout:
+        stream.flush()
+    else:
+        stream.close()
+
+
 def wcxf_cli():
     parser = argparse.ArgumentParser(description="Command line interface to manipulate WCxf files.")
     subparsers = parser.add_subparsers(title='subcommands')
@@ -75,30 +86,42 @@ def wcxf_cli():
     parser_validate.set_defaults(func=validate)
 
     args = parser.parse_args()
-    try:
-        args.func(args)
-    except AttributeError:
+    if not hasattr(args, 'func'):
+        # no subcommand given
         parser.print_help()
+        return 0
+    return args.func(args)
 
 
 def convert(args):
     from wilson.wcxf.converters.yamljson import convert_json, convert_yaml
     if args.FORMAT.lower() == 'json':
-        convert_json(args.FILE, args.output)
-    if args.FORMAT.lower() == 'yaml':
-        convert_yaml(args.FILE, args.output)
+        code = convert_json(args.FILE, args.output)
+    elif args.FORMAT.lower() == 'yaml':
+        code = convert_yaml(args.FILE, args.output)
+    else:
+        logging.error("FORMAT should be 'yaml' or 'json'")
+        return 1
+    if code:
+        return code
+    _finish(args.output)
+    return 0
 
 
 def translate(args):
     wc_in = wcxf.WC.load(args.FILE)
     wc_out = wc_in.translate(args.BASIS)
     wc_out.dump(stream=args.output, fmt=args.format)
+    _finish(args.output)
+    return 0
 
 
 def match(args):
     wc_in = wcxf.WC.load(args.FILE)
     wc_out = wc_in.match(args.EFT, args.BASIS)
     wc_out.dump(stream=args.output, fmt=args.format)
+    _finish(args.output)
+    return 0
 
 
 def validate(args):
@@ -208,6 +231,7 @@ def wcxf2dsixtools():
     wc = wcxf.WC.load(args.FILE)
     wc.validate()
     dsixtools.wcxf2dsixtools(wc, stream=args.output)
+    _finish(args.output)
     return 0
 
 
@@ -221,4 +245,5 @@ def dsixtools2wcxf():
                         type=argparse.FileType('w'), default=sys.stdout)
     args = parser.parse_args()
     dsixtools.dsixtools2wcxf(tuple(f for f in args.FILE), stream=args.output)
+    _finish(args.output)
     return 0
-- 
2.43.0


From 08fdadc42f2bc432fdf1f6464e663ffa7e31d45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 11/19] fix: print to standard output if --output is given
 without a file name

---
 wilson/wcxf/cli.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/wilson/wcxf/cli.py b/wilson/wcxf/cli.py
index 5d90966..81ff072 100755
--- a/wilson/wcxf/cli.py
+++ b/wilson/wcxf/cli.py
@@ -34,7 +34,7 @@ def wcxf_cli():
                                 help="Input file. If \"-\", read from standard input")
     parser_convert.add_argument("--output", nargs='?',
                                       type=argparse.FileType('w'),
-                                      default=sys.stdout,
+                                      default=sys.stdout, const=sys.stdout,
                                       help="Output file. If absent, print to standard output")
     parser_convert.set_defaults(func=convert)
 
@@ -49,7 +49,7 @@ def wcxf_cli():
                                   default=sys.stdin,
                                   help="Input file. If \"-\", read from standard input")
     parser_translate.add_argument("--output", nargs='?',
-                                  type=argparse.FileType('w'), default=sys.stdout,
+                                  type=argparse.FileType('w'), default=sys.stdout, const=sys.stdout,
                                   help="Output file. If absent, print to standard output")
     parser_translate.add_argument("--format", type=str,
                                   default="json",
@@ -67,7 +67,7 @@ def wcxf_cli():
                               type=argparse.FileType('r'), default=sys.stdin,
                               help="Input file. If \"-\", read from standard input")
     parser_match.add_argument("--output", nargs='?',
-                              type=argparse.FileType('w'), default=sys.stdout,
+                              type=argparse.FileType('w'), default=sys.stdout, const=sys.stdout,
                               help="Output file. If absent, print to standard output")
     parser_match.add_argument("--format", type=str, default="json",
                               help="Output format (default: json)")
@@ -149,7 +149,7 @@ def eos():
     parser.add_argument("--eosprefix", help="Installation prefix for the EOS installation. Defaults to /usr",
                         default='/usr')
     parser.add_argument("--output", nargs='?', help="Output file. If absent, print to standard output",
-                        type=argparse.FileType('w'), default=sys.stdout)
+                        type=argparse.FileType('w'), default=sys.stdout, const=sys.stdout)
     parser.add_argument("--eoshome", help="EOS home directory. If specified, values will be written to EOSHOME/parameters/wcxf.yaml. Cannot be used simultaneously with output",
                         default=None)
     args = parser.parse_args()
@@ -226,7 +226,7 @@ def wcxf2dsixtools():
     parser.add_argument("FILE", nargs='?', help="Input file. If \"-\", read from standard input",
                         type=argparse.FileType('r'), default=sys.stdin)
     parser.add_argument("--output", nargs='?', help="Output file. If absent, print to standard output",
-                        type=argparse.FileType('w'), default=sys.stdout)
+                        type=argparse.FileType('w'), default=sys.stdout, const=sys.stdout)
     args = parser.parse_args()
     wc = wcxf.WC.load(args.FILE)
     wc.validate()
@@ -242,7 +242,7 @@ def dsixtools2wcxf():
     parser.add_argument("FILE", nargs='+', help="Input file(s).",
                         type=argparse.FileType('r'), default=sys.stdin)
     parser.add_argument("--output", nargs='?', help="Output file. If absent, print to standard output",
-                        type=argparse.FileType('w'), default=sys.stdout)
+                        type=argparse.FileType('w'), default=sys.stdout, const=sys.stdout)
     args = parser.parse_args()
     dsixtools.dsixtools2wcxf(tuple(f for f in args.FILE), stream=args.output)
     _finish(args.output)
-- 
2.43.0


From 903994767e9d60a9559599cb4e0cd0e29eca7904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:05 +0000
Subject: [PATCH 12/19] fix: raise an error if the EOS parameter directory
 cannot be read

---
 wilson/wcxf/converters/eos.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/wilson/wcxf/converters/eos.py b/wilson/wcxf/converters/eos.py
index c5b8151..7c1f319 100644
--- a/wilson/wcxf/converters/eos.py
+++ b/wilson/wcxf/converters/eos.py
@@ -2,7 +2,6 @@
 
 from collections import OrderedDict
 import yaml
-import glob
 import os
 import re
 
@@ -11,9 +10,11 @@ def get_sm_wcs(eos_parameter_dir):
     """Read SM contributions to EOS Wilson coefficients from the EOS
     installation parameter directory and return them as a dictionary."""
     all_wcs = {}
-    yamlfiles = sorted(glob.glob(os.path.join(eos_parameter_dir, '*.yaml')))
+    # raises an error if the directory does not exist or cannot be read
+    yamlfiles = sorted(f for f in os.listdir(eos_parameter_dir)
+                       if f.endswith('.yaml') and not f.startswith('.'))
     for yamlfile in yamlfiles:
-        with open(yamlfile) as f:
+        with open(os.path.join(eos_parameter_dir, yamlfile)) as f:
             wcs = yaml.safe_load(f)
         meta = wcs.get('@metadata@', {})
         if 'wcxf-relevant' in meta and meta['wcxf-relevant']:
-- 
2.43.0


From 577b1ca6ea53f9f29de6b8e71195c165e3cce980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:34 +0000
Subject: [PATCH 13/19] fix: change a SMEFTio instance only when everything has
 been loaded

A failing load_initial or set_initial_wcxf left the new scales together with
the old coefficients, so that the coefficients read from the instance
afterwards were wrong by the ratio of the scales.
---
 wilson/wcxf/converters/dsixtools.py | 31 +++++++++++++----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/wilson/wcxf/converters/dsixtools.py b/wilson/wcxf/converters/dsixtools.py
index e718f75..696b5f5 100644
--- a/wilson/wcxf/converters/dsixtools.py
+++ b/wilson/wcxf/converters/dsixtools.py
@@ -213,9 +213,7 @@ class SMEFTio:
         r"""Set the initial values for parameters and Wilson coefficients at
         the scale `scale_in`, setting the new physics scale $\Lambda$ to
         `scale_high`."""
-        self.C_in = C_in
-        self.scale_in = scale_in
-        self.scale_high = scale_high
+        self.C_in, self.scale_in, self.scale_high = C_in, scale_in, scale_high
 
     def load_initial(self, streams):
         """Load the initial values for parameters and Wilson coefficients from
@@ -231,11 +229,11 @@ class SMEFTio:
         d = {'BLOCK': d}
         C = wc_lha2dict(d)
         sm = sm_lha2dict(d)
-        self.scale_high = lha2scale(d)
-        self.scale_in = lha2scale(d)
+        scale = lha2scale(d)
         C.update(sm)
         C = smeftutil.symmetrize(C)
-        self.C_in = C
+        # change the instance only when everything has been loaded
+        self.set_initial(C, scale_in=scale, scale_high=scale)
 
     def set_initial_wcxf(self, wc, scale_high=None):
         """Load the initial values for Wilson coefficients from a
@@ -254,20 +252,19 @@ class SMEFTio:
             raise ValueError("Wilson coefficients use wrong EFT.")
         if wc.basis != 'Warsaw':
             raise ValueError("Wilson coefficients use wrong basis.")
-        if scale_high is not None:
-            self.scale_high = scale_high
-        elif self.scale_high is None:
-            self.scale_high = wc.scale
+        if scale_high is None:
+            scale_high = self.scale_high
+        if scale_high is None:
+            scale_high = wc.scale
         C = smeftutil.wcxf2arrays(wc.dict)
         keys_dim5 = ['llphiphi']
         keys_dim6 = list(set(smeftutil.WC_keys_0f + smeftutil.WC_keys_2f + smeftutil.WC_keys_4f) - set(keys_dim5))
-        self.scale_in = wc.scale
         for k in keys_dim5:
             if k in C:
-                C[k] = C[k]*self.scale_high
+                C[k] = C[k]*scale_high
         for k in keys_dim6:
             if k in C:
-                C[k] = C[k]*self.scale_high**2
+                C[k] = C[k]*scale_high**2
         C = smeftutil.symmetrize(C)
         # fill in zeros for missing WCs
         for k, s in smeftutil.C_keys_shape.items():
@@ -276,10 +273,10 @@ class SMEFTio:
                     C[k] = 0
                 else:
                     C[k] = np.zeros(s)
-        if self.C_in is None:
-            self.C_in = C
-        else:
-            self.C_in.update(C)
+        if self.C_in is not None:
+            C = {**self.C_in, **C}
+        # change the instance only when everything has been loaded
+        self.set_initial(C, scale_in=wc.scale, scale_high=scale_high)
 
     def load_wcxf(self, stream):
         """Load the initial values for Wilson coefficients from
-- 
2.43.0


From 7fffd416e95b1bc8d03470ff67cb444a38ac92c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 14/19] fix: keep the keys of the WET running plain strings

With less than five flavours the list of coefficients became a numpy
array, so the results had numpy.str_ keys: dumping them as YAML wrote
files which cannot be loaded again.
---
 wilson/run/wet/rge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/run/wet/rge.py b/wilson/run/wet/rge.py
index 0a32b8e..42c5f6e 100644
--- a/wilson/run/wet/rge.py
+++ b/wilson/run/wet/rge.py
@@ -137,7 +137,7 @@ def run_sector(sector, C_in, eta_s, f, p_in, p_out, qed_order=1, qcd_order=1):
         perm_keys = get_permissible_wcs(sector, f)
     if perm_keys != 'all':
         # remove disallowed keys if necessary
-        keylist = np.asarray(keylist)[perm_keys]
+        keylist = [keylist[i] for i in perm_keys]
     C_input = np.array([C_in.get(key, 0) for key in keylist])
     if np.count_nonzero(C_input) == 0 or classname == 'inv':
         # nothing to do for SM-like WCs or RG invariant operators
-- 
2.43.0


From 6c48af272e2f30dc065c3965e4db06f9af1f0fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 15/19] fix: a bases directory that cannot be listed is an
 error

glob.glob ignores all errors of listing a directory, so the package was
imported without part of the EFTs and bases, e.g. when reading the
directory failed with EIO or there were no file descriptors left.
---
 wilson/wcxf/__init__.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/wilson/wcxf/__init__.py b/wilson/wcxf/__init__.py
index 835faa6..52b9084 100644
--- a/wilson/wcxf/__init__.py
+++ b/wilson/wcxf/__init__.py
@@ -6,12 +6,24 @@ from wilson import util
 # read all EFTs and bases from the wcxf-bases submodule
 
 import os
-import glob
 
 _root = os.path.abspath(os.path.dirname(__file__))
-all_efts = glob.glob(os.path.join(_root, 'bases', '*.eft.json'))
-all_bases = glob.glob(os.path.join(_root, 'bases', '*.basis.json'))
-child_bases = glob.glob(os.path.join(_root, 'bases', 'child', '*.basis.json'))
+
+
+def _list_files(directory, suffix):
+    """Paths of all files in the directory with this suffix. In contrast to
+    `glob.glob`, a directory that cannot be read is an error."""
+    try:
+        names = os.listdir(directory)
+    except FileNotFoundError:
+        return []
+    return [os.path.join(directory, name) for name in names
+            if name.endswith(suffix) and not name.startswith('.')]
+
+
+all_efts = _list_files(os.path.join(_root, 'bases'), '.eft.json')
+all_bases = _list_files(os.path.join(_root, 'bases'), '.basis.json')
+child_bases = _list_files(os.path.join(_root, 'bases', 'child'), '.basis.json')
 
 for eft in all_efts:
     with open(eft) as f:
-- 
2.43.0


From 9d1df1d559ecba5434637e850f1bdb2ee2d8acc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:09 +0000
Subject: [PATCH 16/19] fix: copies of a Wilson instance do not share the
 options

With copy.copy, set_option on one instance changed the options of the
other one, which kept returning the cached results for the old options.
---
 wilson/classes.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/wilson/classes.py b/wilson/classes.py
index 8532d49..0fd8b85 100644
--- a/wilson/classes.py
+++ b/wilson/classes.py
@@ -40,6 +40,14 @@ class ConfigurableClass:
     def __init__(self):
         self._options = self._default_options.copy()
 
+    def __copy__(self):
+        # a copy must not share the options: changing them would only clear
+        # the cache of one of the two instances
+        new = self.__class__.__new__(self.__class__)
+        new.__dict__.update(self.__dict__)
+        new._options = self._options.copy()
+        return new
+
     @classmethod
     def set_default_option(cls, key, value):
         """Class method. Set the default value of the option `key` (string)
-- 
2.43.0


From e22398bbdadc246e7434dea7b60c0c129f62b954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:20 +0000
Subject: [PATCH 17/19] fix: use the parameters option in the WET running of
 match_run

Wilson.parameters is documented as the parameters used for running and
translation, but WETrunner was always created with the default ones, so
that results for changed alpha_s or quark masses mixed both.
---
 wilson/classes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wilson/classes.py b/wilson/classes.py
index 0fd8b85..12c7f26 100644
--- a/wilson/classes.py
+++ b/wilson/classes.py
@@ -209,7 +209,8 @@ class Wilson(ConfigurableClass):
     def _wetrun_opt(self):
         """Return a dictionary of options to pass to a `run.wet.WETrunner`
         instance."""
-        return {'qed_order': self.get_option('qed_order'),
+        return {'parameters': self.parameters,
+                'qed_order': self.get_option('qed_order'),
                 'qcd_order': self.get_option('qcd_order')}
 
     def match_run(self, scale, eft, basis, sectors='all'):
-- 
2.43.0


From 1b2120c71eaed0716a2ba48ebf3959da5cb761f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:28 +0000
Subject: [PATCH 18/19] fix: c5 in the translation from JMS to EOS is a number,
 not a tuple

---
 wilson/translate/wet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wilson/translate/wet.py b/wilson/translate/wet.py
index 6acf24c..696f3ba 100644
--- a/wilson/translate/wet.py
+++ b/wilson/translate/wet.py
@@ -1026,7 +1026,7 @@ def _Fierz_to_EOS_V(Fsbuu,Fsbdd,Fsbcc,Fsbss,Fsbbb,parameters):
         - Fsbdd['Fsbdd4'] / 180 + Fsbss['Fsbss1'] / 54
         - Fsbss['Fsbss3'] / 60 - Fsbss['Fsbss4'] / 180
         + 5 * Fsbuu['Fsbuu1'] / 216 - Fsbuu['Fsbuu2'] / 216
-        - Fsbuu['Fsbuu3'] / 60 - Fsbuu['Fsbuu4'] / 180,
+        - Fsbuu['Fsbuu3'] / 60 - Fsbuu['Fsbuu4'] / 180
     )
     c6 = (
         + Fsbbb['Fsbbb1'] / 36 - Fsbbb['Fsbbb4'] / 30
-- 
2.43.0


From 34d905bfd0bab508b88d2f783a31e346bb177497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:26 +0000
Subject: [PATCH 19/19] fix: order of matched coefficients does not depend on
 the hash seed

---
 wilson/match/smeft.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wilson/match/smeft.py b/wilson/match/smeft.py
index 638860e..ed7ad3e 100644
--- a/wilson/match/smeft.py
+++ b/wilson/match/smeft.py
@@ -37,6 +37,6 @@ def match_all(d_SMEFT, scale, parameters=None):
     C_WET = wet_jms.unscale_dict_wet(C_WET)
     d_WET = wilson.util.smeftutil.arrays2wcxf(C_WET)
     basis = wcxf.Basis['WET', 'JMS']
-    keys = set(d_WET.keys()) & set(basis.all_wcs)
-    d_WET = {k: d_WET[k] for k in keys}
+    keys = set(basis.all_wcs)  # to speed up lookup
+    d_WET = {k: v for k, v in d_WET.items() if k in keys}
     return d_WET
-- 
2.43.0

