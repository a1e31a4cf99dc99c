From 9eded640ef200c77334cf55597d6389bab4e6fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:10 +0000
Subject: [PATCH 1/5] fix: pass the attestation object to attest() when
 handling an attestation

FIDO U2F and Android Key registrations always failed with InternalError
because the credential public key was passed instead.
---
 webauthn_rp/backends.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/webauthn_rp/backends.py b/webauthn_rp/backends.py
index 4f684a5..25867d2 100644
--- a/webauthn_rp/backends.py
+++ b/webauthn_rp/backends.py
@@ -201,9 +201,8 @@ class CredentialsBackend:
             assert attestation.auth_data.attested_credential_data is not None
 
             att_type, trusted_path = attest(
-                attestation.att_stmt, attestation.auth_data.
-                attested_credential_data.credential_public_key,
-                raw_att_obj['authData'], client_data_JSON_hash)
+                attestation.att_stmt, attestation, raw_att_obj['authData'],
+                client_data_JSON_hash)
 
             try:
                 response = self.registrar.register_credential_attestation(
-- 
2.43.0


From 686592e49872b16bd104cb196cbe3a8fa56da680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:13 +0000
Subject: [PATCH 2/5] fix: keep base_IV when encoding a COSE key

The base IV was written only when key_ops was set (and then even if null),
so a stored key lost it on the way back from storage.
---
 webauthn_rp/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/webauthn_rp/converters.py b/webauthn_rp/converters.py
index 2d12b1e..6eb41eb 100644
--- a/webauthn_rp/converters.py
+++ b/webauthn_rp/converters.py
@@ -170,7 +170,7 @@ def _build_base_cose_dictionary(
     d[3] = credential_public_key.alg.value
     if credential_public_key.key_ops is not None:
         d[4] = [x.value for x in credential_public_key.key_ops]
-    if credential_public_key.key_ops is not None:
+    if credential_public_key.base_IV is not None:
         d[5] = credential_public_key.base_IV
     return d
 
-- 
2.43.0


From 6d688989a90b5f6deac9ec57be280ba74e2e6720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:17 +0000
Subject: [PATCH 3/5] fix: accept authenticators that always report a zero
 signature counter

The specification only compares counters when the stored or the reported
one is nonzero; before, such authenticators were locked out after the
first login.
---
 webauthn_rp/backends.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/webauthn_rp/backends.py b/webauthn_rp/backends.py
index 25867d2..be0a7a6 100644
--- a/webauthn_rp/backends.py
+++ b/webauthn_rp/backends.py
@@ -428,7 +428,8 @@ class CredentialsBackend:
                    verification_data)
 
             registered_sign_count = credential_data.signature_count
-            if registered_sign_count is not None:
+            if registered_sign_count is not None and (
+                    auth_data.sign_count != 0 or registered_sign_count != 0):
                 if auth_data.sign_count <= registered_sign_count:
                     if not ignore_clone_error:
                         raise SignatureCountError(
-- 
2.43.0


From 013e2a5d11359cc5ab847714541718c313e8afcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:21 +0000
Subject: [PATCH 4/5] fix: compare origins by scheme, host and port

parse_origin kept the port in the hostname, so https://host:443 and
https://host were different origins, and a malformed port or IPv6 host
escaped as ValueError.
---
 webauthn_rp/parsers.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/webauthn_rp/parsers.py b/webauthn_rp/parsers.py
index d902be6..d9def32 100644
--- a/webauthn_rp/parsers.py
+++ b/webauthn_rp/parsers.py
@@ -66,24 +66,26 @@ def parse_origin(origin: str) -> Origin:
     if '://' not in origin:
         raise OriginError('Invalid origin, missing scheme')
 
-    url = urlparse(origin)
+    try:
+        url = urlparse(origin)
+        hostname, port = url.hostname, url.port
+    except ValueError:
+        raise OriginError('Invalid origin, malformed host or port')
+
     if url.path or url.params or url.query or url.fragment:
         raise OriginError('Invalid origin, cannot have path, params, query, '
                           'or fragment present')
 
-    if not url.netloc:
-        raise OriginError('Invalid origin, must provide a hostname')
+    if not hostname or '@' in url.netloc:
+        raise OriginError('Invalid origin, must provide only a hostname')
 
     if url.scheme not in {'http', 'https'}:
         raise OriginError('Invalid origin, unsupported scheme {}'.format(
             url.scheme))
 
     scheme = url.scheme
-    hostname = url.netloc
-    if url.port is None:
+    if port is None:
         port = _SCHEME_DEFAULT_PORT_MAPPING[scheme]
-    else:
-        port = url.port
 
     return Origin(
         scheme=scheme,
-- 
2.43.0


From cc2f50287cb33e111d30dab500f7e5b023d0d37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:37 +0000
Subject: [PATCH 5/5] fix: refuse FIDO U2F attestations of keys not on P-256

The verification procedure requires 32-byte coordinates; any curve was
accepted.
---
 webauthn_rp/attesters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/webauthn_rp/attesters.py b/webauthn_rp/attesters.py
index 8a8cec0..6cef528 100644
--- a/webauthn_rp/attesters.py
+++ b/webauthn_rp/attesters.py
@@ -107,6 +107,10 @@ def attest_fido_u2f(
         att_obj.auth_data.attested_credential_data.credential_public_key)
 
     assert credential_public_key is not None
+    if credential_public_key.crv.name != 'P_256':
+        raise AttestationError(
+            'FIDO U2F attestation failed: credential must use curve SECP256R1')
+
     public_key_u2f = b'\x04' + (credential_public_key.x +
                                 credential_public_key.y)
 
-- 
2.43.0

