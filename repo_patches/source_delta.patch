From 1267a650cc7c930338fd3cc24651bf83b2cd84f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:29 +0000
Subject: [PATCH 01/41] fix: return InvalidRadix instead of panicking for
 radixes below 2

---
 src/types/char_matcher.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/types/char_matcher.rs b/src/types/char_matcher.rs
index 83369d2..18f64f6 100644
--- a/src/types/char_matcher.rs
+++ b/src/types/char_matcher.rs
@@ -72,7 +72,7 @@ pub enum CharMatcher {
     IsDigit,
     /// [`char::is_digit`].
     /// # Errors
-    /// If the radix is greater than 36, returns the error [`CharMatcherError::InvalidRadix`].
+    /// If the radix is less than 2 or greater than 36, returns the error [`CharMatcherError::InvalidRadix`].
     IsDigitRadix(u32),
     /// [`char::is_lowercase`].
     IsLowercase,
@@ -85,7 +85,7 @@ pub enum CharMatcher {
 }
 #[derive(Debug, Error)]
 pub enum CharMatcherError {
-    #[error("Invalid radix: {0}. Radix must be between 0 and 36 inclusive. See [`char::is_digit`] for details.")]
+    #[error("Invalid radix: {0}. Radix must be between 2 and 36 inclusive. See [`char::is_digit`] for details.")]
     InvalidRadix(u32),
     #[error("CharMatcher::Error was used.")]
     ExplicitError,
@@ -169,7 +169,7 @@ impl CharMatcher {
             Self::IsAsciiWhitespace   => c.is_ascii_whitespace(),
             Self::IsControl           => c.is_control(),
             Self::IsDigit             => c.is_ascii_digit(),
-            Self::IsDigitRadix(radix) => if *radix <= 36 {c.is_digit(*radix)} else {Err(CharMatcherError::InvalidRadix(*radix))?},
+            Self::IsDigitRadix(radix) => if (2..=36).contains(radix) {c.is_digit(*radix)} else {Err(CharMatcherError::InvalidRadix(*radix))?},
             Self::IsLowercase         => c.is_lowercase(),
             Self::IsNumeric           => c.is_numeric(),
             Self::IsUppercase         => c.is_uppercase(),
-- 
2.43.0


From 4975ec2449c442311a77bd60c9500a72bf267e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:29 +0000
Subject: [PATCH 02/41] fix: keep host details in sync when setting domain
 hosts of URLs with non-special schemes

---
 src/types/better_url.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/types/better_url.rs b/src/types/better_url.rs
index 6c3224a..d8021bf 100644
--- a/src/types/better_url.rs
+++ b/src/types/better_url.rs
@@ -378,9 +378,10 @@ impl BetterUrl {
     ///
     /// If the call to [`HostDetails::from_host_str`] doesn't return a [`HostDetails::Domain`], returns the error [`SetDomainHostError::ProvidedHostIsNotADomain`].
     pub fn set_domain_host(&mut self, domain: &str) -> Result<(), SetDomainHostError> {
-        if let Ok(host_details @ HostDetails::Domain(_)) = HostDetails::from_host_str(domain) {
+        if let Ok(HostDetails::Domain(_)) = HostDetails::from_host_str(domain) {
             self.url.set_host(Some(domain))?;
-            self.host_details = Some(host_details);
+            // Non-special schemes keep the host as written, so the normalized host's details don't always apply.
+            self.host_details = self.url.host().map(|host| HostDetails::from_host(&host));
         } else {
             Err(SetDomainHostError::ProvidedHostIsNotADomain)?;
         }
-- 
2.43.0


From 1d56d1d213566e063db6e2cbf8323e040123a75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:54 +0000
Subject: [PATCH 03/41] fix: return an error instead of panicking when changing
 the FQDN period makes the host invalid

---
 src/types/better_url.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/types/better_url.rs b/src/types/better_url.rs
index d8021bf..22c5515 100644
--- a/src/types/better_url.rs
+++ b/src/types/better_url.rs
@@ -140,7 +140,10 @@ pub enum SetFqdnPeriodError {
     NoHost,
     /// Returned when the URL's host isn't a domain.
     #[error("The URL's host wasn't a domain.")]
-    HostIsNotADomain
+    HostIsNotADomain,
+    /// Returned when a [`SetHostError`] is encountered.
+    #[error(transparent)]
+    SetHostError(#[from] SetHostError)
 }
 
 /// The enum of errors [`BetterUrl::set_domain_host`] can return.
@@ -554,6 +557,8 @@ impl BetterUrl {
     /// If `self` doesn't have a host, returns the error [`SetFqdnPeriodError::NoHost`].
     ///
     /// If the host isn't a domain, returns the error [`SetFqdnPeriodError::HostIsNotADomain`].
+    ///
+    /// If the call to [`Self::set_host`] returns an error, that error is returned. For example, removing the period from `1..` would leave an invalid host.
     /// # Examples
     /// ```
     /// use url_cleaner::types::*;
@@ -575,9 +580,9 @@ impl BetterUrl {
     pub fn set_fqdn(&mut self, to: bool) -> Result<(), SetFqdnPeriodError> {
         match (self.host_details(), to) {
             (Some(HostDetails::Domain(DomainDetails {fqdn_period: None   , ..})), false) => {},
-            (Some(HostDetails::Domain(DomainDetails {fqdn_period: None   , ..})), true ) => {self.set_host(Some(&format!("{}.", self.host_str().expect("The URL having a DomainDetails means it has a host.")))).expect("Adding a FQDN period to keep the host valid.")},
+            (Some(HostDetails::Domain(DomainDetails {fqdn_period: None   , ..})), true ) => {self.set_host(Some(&format!("{}.", self.host_str().expect("The URL having a DomainDetails means it has a host."))))?},
             #[expect(clippy::unnecessary_to_owned, reason = "It is necessary.")]
-            (Some(HostDetails::Domain(DomainDetails {fqdn_period: Some(_), ..})), false) => {self.set_host(Some(&self.host_str().expect("The URL having a DomainDetails means it has a host.").strip_suffix('.').expect("The URL's DomainDetails::fqdn_period being Some means the host ends with a period.").to_string())).expect("Removing a FQDN period to keep the host valid.")},
+            (Some(HostDetails::Domain(DomainDetails {fqdn_period: Some(_), ..})), false) => {self.set_host(Some(&self.host_str().expect("The URL having a DomainDetails means it has a host.").strip_suffix('.').expect("The URL's DomainDetails::fqdn_period being Some means the host ends with a period.").to_string()))?},
             (Some(HostDetails::Domain(DomainDetails {fqdn_period: Some(_), ..})), true ) => {},
             (Some(_), _) => Err(SetFqdnPeriodError::HostIsNotADomain)?,
             (None, _) => Err(SetFqdnPeriodError::NoHost)?
-- 
2.43.0


From 92cd5bc7168dad73ce5f7ae3c684ef20989bdb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:54 +0000
Subject: [PATCH 04/41] fix: keep empty first path segments when editing path
 segments

---
 src/types/url_part.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/types/url_part.rs b/src/types/url_part.rs
index 8ca41af..30ff86c 100755
--- a/src/types/url_part.rs
+++ b/src/types/url_part.rs
@@ -1134,9 +1134,9 @@ impl UrlPart {
 
             (Self::Path, Some(to)) => url.set_path(to),
             (Self::Path, None    ) => Err(UrlPartSetError::PathCannotBeNone)?,
-            (Self::BeforePathSegment(n), _) => Self::Path.set(url, Some(&*set_rel_segment(url.path_segments()?, *n, SegRel::Before, to)?.join("/")).filter(|x| !x.is_empty()))?,
-            (Self::PathSegment      (n), _) => Self::Path.set(url, Some(&*set_rel_segment(url.path_segments()?, *n, SegRel::At    , to)?.join("/")).filter(|x| !x.is_empty()))?,
-            (Self::AfterPathSegment (n), _) => Self::Path.set(url, Some(&*set_rel_segment(url.path_segments()?, *n, SegRel::After , to)?.join("/")).filter(|x| !x.is_empty()))?,
+            (Self::BeforePathSegment(n), _) => Self::Path.set(url, join_path_segments(&set_rel_segment(url.path_segments()?, *n, SegRel::Before, to)?).as_deref())?,
+            (Self::PathSegment      (n), _) => Self::Path.set(url, join_path_segments(&set_rel_segment(url.path_segments()?, *n, SegRel::At    , to)?).as_deref())?,
+            (Self::AfterPathSegment (n), _) => Self::Path.set(url, join_path_segments(&set_rel_segment(url.path_segments()?, *n, SegRel::After , to)?).as_deref())?,
             (Self::NextPathSegment     , _) => if let Some(to) = to {url.path_segments_mut()?.pop_if_empty().push(to);},
 
 
@@ -1152,6 +1152,20 @@ impl UrlPart {
     }
 }
 
+/// Joins path segments into a value for [`UrlPart::Path`], returning [`None`] if that's empty.
+///
+/// [`Url::set_path`] takes a leading `/` as the start of the path, so when the first segment is empty the start has to be written out.
+fn join_path_segments(segments: &[&str]) -> Option<String> {
+    let joined = segments.join("/");
+    if joined.is_empty() {
+        None
+    } else if joined.starts_with('/') {
+        Some(format!("/{joined}"))
+    } else {
+        Some(joined)
+    }
+}
+
 /// The enum of errors [`UrlPart::set`] can return.
 #[derive(Debug, Error)]
 pub enum UrlPartSetError {
-- 
2.43.0


From 40e9b8b62b7833a8519a85e6eadf4441ec69349c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:39 +0000
Subject: [PATCH 05/41] fix: keep the URL and its host details right when
 removing or emptying the host

---
 src/types/better_url.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/types/better_url.rs b/src/types/better_url.rs
index 22c5515..738ebea 100644
--- a/src/types/better_url.rs
+++ b/src/types/better_url.rs
@@ -353,7 +353,25 @@ impl BetterUrl {
     /// Sets the [`UrlPart::Host`].
     /// # Errors
     /// If the call to [`Url::set_host`] returns an error, the error is returned..
-    pub fn set_host         (&mut self, host    : Option<&str>) -> Result<(), SetHostError>     {self.url.set_host(host)?; self.host_details = self.url.host().map(|host| HostDetails::from_host(&host)); Ok(())}
+    pub fn set_host         (&mut self, host    : Option<&str>) -> Result<(), SetHostError> {
+        if host.is_none() && self.url.has_host() && (!self.url.is_special() || self.url.scheme() == "file") {
+            // `Url::set_host(None)` keeps the removed host's kind and assumes the path isn't empty.
+            let prefix = match (self.url.scheme(), self.url.path()) {
+                ("file", _)                         => "//",
+                (_, "")                             => "/",
+                (_, path) if path.starts_with("//") => "/.",
+                _                                   => ""
+            };
+            self.url = Url::parse(&format!("{}:{prefix}{}", self.url.scheme(), &self.url[url::Position::BeforePath..]))?;
+        } else if host == Some("") && self.url.has_host() && (self.url.port().is_some() || !self.url.username().is_empty() || self.url.password().is_some()) {
+            // `Url::set_host` allows this and makes a URL that isn't valid.
+            Err(ParseError::EmptyHost)?;
+        } else {
+            self.url.set_host(host)?;
+        }
+        self.host_details = self.url.host().map(|host| HostDetails::from_host(&host));
+        Ok(())
+    }
     /// Sets the [`UrlPart::Host`].
     /// # Errors
     /// If the call to [`Url::set_ip_host`] returns an error, returns the error [`SetIpHostError`].
-- 
2.43.0


From 02a2ac90b90898efdf4b4ac93b6755aa59504573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:39 +0000
Subject: [PATCH 06/41] fix: don't turn a path starting with // into a host
 when setting the path of a URL without one

---
 src/types/better_url.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/types/better_url.rs b/src/types/better_url.rs
index 738ebea..0cdb409 100644
--- a/src/types/better_url.rs
+++ b/src/types/better_url.rs
@@ -381,7 +381,15 @@ impl BetterUrl {
     /// If the call to [`Url::set_port`] returns an error, returns the error [`SetPortError`].
     pub fn set_port         (&mut self, port    : Option<u16> ) -> Result<(), SetPortError>     {self.url.set_port(port).map_err(|()| SetPortError)}
     /// [`Url::set_path`].
-    pub fn set_path         (&mut self, path    : &str        )                                 {self.url.set_path(path)}
+    pub fn set_path         (&mut self, path    : &str        ) {
+        self.url.set_path(path);
+        // Without an authority, `Url::set_path` writes a path starting with `//` where the authority would be.
+        if self.url.path().starts_with("//") && self.url[url::Position::AfterScheme..url::Position::BeforePath] == *":" {
+            if let Ok(url) = Url::parse(&format!("{}:/.{}", self.url.scheme(), &self.url[url::Position::BeforePath..])) {
+                self.url = url;
+            }
+        }
+    }
     /// [`Url::set_query`].
     pub fn set_query        (&mut self, query   : Option<&str>)                                 {self.url.set_query(query)}
     /// [`Url::query_pairs_mut`].
-- 
2.43.0


From 9e6ab55725c96097f4f2279e5eb7dc6030e0f495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:39 +0000
Subject: [PATCH 07/41] fix: handle \f and every \xHH escape in javascript
 string literals

---
 src/glue/parse/js/string_literal_prefix.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glue/parse/js/string_literal_prefix.rs b/src/glue/parse/js/string_literal_prefix.rs
index 912a8cb..cebc29d 100644
--- a/src/glue/parse/js/string_literal_prefix.rs
+++ b/src/glue/parse/js/string_literal_prefix.rs
@@ -103,7 +103,7 @@ pub fn string_literal_prefix(s: &str) -> Result<String, StringLiteralPrefixError
             (StringLiteralPrefixLastState::Inside          , '\\'                             ) => {last_state = StringLiteralPrefixLastState::Start           ;},
             (StringLiteralPrefixLastState::Start           , '0'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\0');},
             (StringLiteralPrefixLastState::Start           , 'b'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\u{0008}');},
-            (StringLiteralPrefixLastState::Start           , 'g'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\u{000c}');},
+            (StringLiteralPrefixLastState::Start           , 'f'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\u{000c}');},
             (StringLiteralPrefixLastState::Start           , 'n'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\n');},
             (StringLiteralPrefixLastState::Start           , '\n'                             ) => {last_state = StringLiteralPrefixLastState::Inside          ;},
             (StringLiteralPrefixLastState::Start           , 'r'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\r');},
@@ -116,7 +116,7 @@ pub fn string_literal_prefix(s: &str) -> Result<String, StringLiteralPrefixError
             (StringLiteralPrefixLastState::Octal1          , '0'..='7'                        ) => {last_state = StringLiteralPrefixLastState::Octal2          ; scratchspace = scratchspace *  8 + c.to_digit( 8).unwrap();},
             (StringLiteralPrefixLastState::Octal2          , '0'..='7'                        ) => {last_state = StringLiteralPrefixLastState::Inside          ; scratchspace = scratchspace *  8 + c.to_digit( 8).unwrap(); ret.push(char::from_u32(scratchspace).ok_or(StringLiteralPrefixError::InvalidCodepoint(scratchspace))?);},
             (StringLiteralPrefixLastState::Start           , 'x'                              ) => {last_state = StringLiteralPrefixLastState::AsciiHexx       ;},
-            (StringLiteralPrefixLastState::AsciiHexx       , '0'..='7' | 'A'..='F' | 'a'..='f') => {last_state = StringLiteralPrefixLastState::AsciiHex1       ; scratchspace =                     c.to_digit(16).unwrap();},
+            (StringLiteralPrefixLastState::AsciiHexx       , '0'..='9' | 'A'..='F' | 'a'..='f') => {last_state = StringLiteralPrefixLastState::AsciiHex1       ; scratchspace =                     c.to_digit(16).unwrap();},
             (StringLiteralPrefixLastState::AsciiHex1       , '0'..='9' | 'A'..='F' | 'a'..='f') => {last_state = StringLiteralPrefixLastState::Inside          ; scratchspace = scratchspace * 16 + c.to_digit(16).unwrap(); ret.push(char::from_u32(scratchspace).ok_or(StringLiteralPrefixError::InvalidCodepoint(scratchspace))?);},
             (StringLiteralPrefixLastState::Start           , 'u'                              ) => {last_state = StringLiteralPrefixLastState::UnicodeU        ;},
             (StringLiteralPrefixLastState::UnicodeU        , '{'                              ) => {last_state = StringLiteralPrefixLastState::UnicodeLeftBrace;},
-- 
2.43.0


From 06e208407c50af4161775367accce09e32a6b0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:39 +0000
Subject: [PATCH 08/41] fix: return an error for unfinished javascript string
 literals

---
 src/glue/parse/js/string_literal_prefix.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/glue/parse/js/string_literal_prefix.rs b/src/glue/parse/js/string_literal_prefix.rs
index cebc29d..7b83a89 100644
--- a/src/glue/parse/js/string_literal_prefix.rs
+++ b/src/glue/parse/js/string_literal_prefix.rs
@@ -63,6 +63,9 @@ pub enum StringLiteralPrefixError {
         /// The calculated return value prior to the error.
         partial: String
     },
+    /// Returned when the string literal isn't finished.
+    #[error("The string literal wasn't finished.")]
+    Unfinished,
     /// Returned when an invalid codepoint is encountered.
     #[error("An invalid codepoint was encountered: {0}.")]
     InvalidCodepoint(u32)
@@ -74,6 +77,8 @@ pub enum StringLiteralPrefixError {
 /// # Errors
 /// If a syntax error happens, returns the error [`StringLiteralPrefixLastState::SyntaxError`].
 ///
+/// If the string literal isn't finished, returns the error [`StringLiteralPrefixError::Unfinished`].
+///
 /// If an invalid codepoint is encountered, returns the error [`StringLiteralPrefixLastState::InvalidCodepoint`].
 /// # Examples
 /// ```
@@ -134,13 +139,13 @@ pub fn string_literal_prefix(s: &str) -> Result<String, StringLiteralPrefixError
             (StringLiteralPrefixLastState::Unicode41       , '0'..='9' | 'A'..='F' | 'a'..='f') => {last_state = StringLiteralPrefixLastState::Unicode42       ; scratchspace = scratchspace * 16 + c.to_digit(16).unwrap();},
             (StringLiteralPrefixLastState::Unicode42       , '0'..='9' | 'A'..='F' | 'a'..='f') => {last_state = StringLiteralPrefixLastState::Unicode43       ; scratchspace = scratchspace * 16 + c.to_digit(16).unwrap();},
             (StringLiteralPrefixLastState::Unicode43       , '0'..='9' | 'A'..='F' | 'a'..='f') => {last_state = StringLiteralPrefixLastState::Inside          ; scratchspace = scratchspace * 16 + c.to_digit(16).unwrap(); ret.push(char::from_u32(scratchspace).ok_or(StringLiteralPrefixError::InvalidCodepoint(scratchspace))?);},
-            (StringLiteralPrefixLastState::Inside          , '"' | '\''                       ) if c == quote => break,
+            (StringLiteralPrefixLastState::Inside          , '"' | '\''                       ) if c == quote => return Ok(ret),
             (StringLiteralPrefixLastState::Start           , _                                ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push(c);},
             (StringLiteralPrefixLastState::Inside          , _                                ) => {ret.push(c);}
             _ => Err(StringLiteralPrefixError::SyntaxError {last_state, i, c, scratchspace, quote, partial: ret.clone()})?
         };
     }
 
-    Ok(ret)
+    Err(StringLiteralPrefixError::Unfinished)
 }
 
-- 
2.43.0


From e6cca5382accb9937a125caf5bf43d00a4df7a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:39 +0000
Subject: [PATCH 09/41] fix: handle octal escape sequences of every length in
 javascript string literals

---
 src/glue/parse/js/string_literal_prefix.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/glue/parse/js/string_literal_prefix.rs b/src/glue/parse/js/string_literal_prefix.rs
index 7b83a89..0973b3b 100644
--- a/src/glue/parse/js/string_literal_prefix.rs
+++ b/src/glue/parse/js/string_literal_prefix.rs
@@ -102,11 +102,15 @@ pub fn string_literal_prefix(s: &str) -> Result<String, StringLiteralPrefixError
     let mut quote = '"';
 
     for (i, c) in s.chars().enumerate() {
+        // Octal escape sequences can end early.
+        if matches!(last_state, StringLiteralPrefixLastState::Octal1 | StringLiteralPrefixLastState::Octal2) && !matches!(c, '0'..='7') {
+            last_state = StringLiteralPrefixLastState::Inside;
+            ret.push(char::from_u32(scratchspace).ok_or(StringLiteralPrefixError::InvalidCodepoint(scratchspace))?);
+        }
         #[allow(clippy::arithmetic_side_effects, reason = "Shouldn't ever happen.")]
         match (last_state, c) {
             (StringLiteralPrefixLastState::Outside         , '"' | '\''                       ) => {last_state = StringLiteralPrefixLastState::Inside          ; quote = c;},
             (StringLiteralPrefixLastState::Inside          , '\\'                             ) => {last_state = StringLiteralPrefixLastState::Start           ;},
-            (StringLiteralPrefixLastState::Start           , '0'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\0');},
             (StringLiteralPrefixLastState::Start           , 'b'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\u{0008}');},
             (StringLiteralPrefixLastState::Start           , 'f'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\u{000c}');},
             (StringLiteralPrefixLastState::Start           , 'n'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\n');},
@@ -118,7 +122,8 @@ pub fn string_literal_prefix(s: &str) -> Result<String, StringLiteralPrefixError
             (StringLiteralPrefixLastState::Start           , '"'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('"') ;},
             (StringLiteralPrefixLastState::Start           , '\\'                             ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\\');},
             (StringLiteralPrefixLastState::Start           , '0'..='7'                        ) => {last_state = StringLiteralPrefixLastState::Octal1          ; scratchspace =                     c.to_digit( 8).unwrap();},
-            (StringLiteralPrefixLastState::Octal1          , '0'..='7'                        ) => {last_state = StringLiteralPrefixLastState::Octal2          ; scratchspace = scratchspace *  8 + c.to_digit( 8).unwrap();},
+            (StringLiteralPrefixLastState::Octal1          , '0'..='7'                        ) if scratchspace <= 3 => {last_state = StringLiteralPrefixLastState::Octal2    ; scratchspace = scratchspace *  8 + c.to_digit( 8).unwrap();},
+            (StringLiteralPrefixLastState::Octal1          , '0'..='7'                        ) => {last_state = StringLiteralPrefixLastState::Inside          ; scratchspace = scratchspace *  8 + c.to_digit( 8).unwrap(); ret.push(char::from_u32(scratchspace).ok_or(StringLiteralPrefixError::InvalidCodepoint(scratchspace))?);},
             (StringLiteralPrefixLastState::Octal2          , '0'..='7'                        ) => {last_state = StringLiteralPrefixLastState::Inside          ; scratchspace = scratchspace *  8 + c.to_digit( 8).unwrap(); ret.push(char::from_u32(scratchspace).ok_or(StringLiteralPrefixError::InvalidCodepoint(scratchspace))?);},
             (StringLiteralPrefixLastState::Start           , 'x'                              ) => {last_state = StringLiteralPrefixLastState::AsciiHexx       ;},
             (StringLiteralPrefixLastState::AsciiHexx       , '0'..='9' | 'A'..='F' | 'a'..='f') => {last_state = StringLiteralPrefixLastState::AsciiHex1       ; scratchspace =                     c.to_digit(16).unwrap();},
-- 
2.43.0


From c8ba52581121a9dd0ba86a1b617727dc763b5c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:06 +0000
Subject: [PATCH 10/41] fix: find HTML attributes after non-ASCII text and
 attributes without values

---
 src/glue/parse/html/get_attribute.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/glue/parse/html/get_attribute.rs b/src/glue/parse/html/get_attribute.rs
index 96b4eb1..1eb559c 100644
--- a/src/glue/parse/html/get_attribute.rs
+++ b/src/glue/parse/html/get_attribute.rs
@@ -176,7 +176,7 @@ pub fn get_attribute_value<'a>(input: &'a str, name: &'a str) -> Result<Option<O
         attr_value_start: 0
     };
 
-    for (i, c) in input.chars().enumerate() {
+    for (i, c) in input.char_indices() {
         if let Err(e) = munch(&mut state, i, c) {
             return Err(GAVError::Syntax {
                 index: i,
@@ -220,23 +220,23 @@ fn munch(state: &mut GAVState, i: usize, c: char) -> Result<(), GAVSyntaxErrorKi
 
 
         (LB::BeforeAttributeName, '\t' | '\r' | '\n' | ' ') => {},
-        (LB::BeforeAttributeName, '/' | '>'               ) => {state.last_bite = LB::AfterAttributeName; munch(state, i, c)?;},
+        (LB::BeforeAttributeName, '/'                     ) => {state.last_bite = LB::SelfClosingStartTag;},
+        (LB::BeforeAttributeName, '>'                     ) => {state.last_bite = LB::Done;},
         (LB::BeforeAttributeName, '='                     ) => Err(EK::UnexpextedEqualsSignBeforeAttributeName)?,
         (LB::BeforeAttributeName, _                       ) => {state.last_bite = LB::AttributeName; state.attr_name_start = i; munch(state, i, c)?;},
 
 
-        (LB::AttributeName, '\t' | '\r' | '\n' | ' ' | '/') => {state.last_bite = LB::AfterAttributeName  ; state.attr_name_end = i; munch(state, i, c)?;},
-        (LB::AttributeName, '>'                           ) => {state.last_bite = LB::AfterAttributeName  ; state.attr_name_end = i; if &state.input[state.attr_name_start..state.attr_name_end] == state.name {state.ret = Some(None);} else {state.ret = None;} munch(state, i, c)?;},
-        (LB::AttributeName, '='                           ) => {state.last_bite = LB::BeforeAttributeValue; state.attr_name_end = i;},
-        (LB::AttributeName, '\0' | '"' | '\'' | '<'       ) => Err(EK::UnexpectedCharacterInAttributeName)?,
-        (LB::AttributeName, _                             ) => {},
+        (LB::AttributeName, '\t' | '\r' | '\n' | ' ' | '/' | '>') => {state.last_bite = LB::AfterAttributeName  ; state.attr_name_end = i; munch(state, i, c)?;},
+        (LB::AttributeName, '='                                 ) => {state.last_bite = LB::BeforeAttributeValue; state.attr_name_end = i;},
+        (LB::AttributeName, '\0' | '"' | '\'' | '<'             ) => Err(EK::UnexpectedCharacterInAttributeName)?,
+        (LB::AttributeName, _                                   ) => {},
 
 
         (LB::AfterAttributeName, '\t' | '\r' | '\n' | ' ') => {},
-        (LB::AfterAttributeName, '/'                     ) => {state.last_bite = LB::SelfClosingStartTag ;},
+        (LB::AfterAttributeName, '/'                     ) => {state.last_bite = LB::SelfClosingStartTag ; if &state.input[state.attr_name_start..state.attr_name_end] == state.name {state.ret = Some(None);}},
         (LB::AfterAttributeName, '='                     ) => {state.last_bite = LB::BeforeAttributeValue;},
-        (LB::AfterAttributeName, '>'                     ) => {state.last_bite = LB::Done; if &state.input[state.attr_name_start..i] == state.name {state.ret = Some(None);}},
-        (LB::AfterAttributeName, _                       ) => {state.last_bite = LB::AttributeName       ; munch(state, i, c)?;},
+        (LB::AfterAttributeName, '>'                     ) => {state.last_bite = LB::Done; if &state.input[state.attr_name_start..state.attr_name_end] == state.name {state.ret = Some(None);}},
+        (LB::AfterAttributeName, _                       ) => {state.last_bite = LB::AttributeName       ; if &state.input[state.attr_name_start..state.attr_name_end] == state.name {state.ret = Some(None);} state.attr_name_start = i; munch(state, i, c)?;},
 
 
         (LB::BeforeAttributeValue, '\t' | '\r' | '\n' | ' ') => {},
-- 
2.43.0


From 765f9df5074954db23cab46200fc7e2b85f0d29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:06 +0000
Subject: [PATCH 11/41] fix: handle every kind of line continuation in
 javascript string literals

---
 src/glue/parse/js/string_literal_prefix.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/glue/parse/js/string_literal_prefix.rs b/src/glue/parse/js/string_literal_prefix.rs
index 0973b3b..d0becc1 100644
--- a/src/glue/parse/js/string_literal_prefix.rs
+++ b/src/glue/parse/js/string_literal_prefix.rs
@@ -14,6 +14,8 @@ pub enum StringLiteralPrefixLastState {
     Inside,
     /// THe `\` of an escape sequence.
     Start,
+    /// The `\r` of a line continuation, which may be followed by a `\n`.
+    StartCr,
     /// The first digit of an octal escape sequence.
     Octal1,
     /// The second digit of an octal escape sequence.
@@ -102,6 +104,10 @@ pub fn string_literal_prefix(s: &str) -> Result<String, StringLiteralPrefixError
     let mut quote = '"';
 
     for (i, c) in s.chars().enumerate() {
+        // A `\r` that isn't followed by a `\n` is a line continuation by itself.
+        if matches!(last_state, StringLiteralPrefixLastState::StartCr) && c != '\n' {
+            last_state = StringLiteralPrefixLastState::Inside;
+        }
         // Octal escape sequences can end early.
         if matches!(last_state, StringLiteralPrefixLastState::Octal1 | StringLiteralPrefixLastState::Octal2) && !matches!(c, '0'..='7') {
             last_state = StringLiteralPrefixLastState::Inside;
@@ -114,7 +120,9 @@ pub fn string_literal_prefix(s: &str) -> Result<String, StringLiteralPrefixError
             (StringLiteralPrefixLastState::Start           , 'b'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\u{0008}');},
             (StringLiteralPrefixLastState::Start           , 'f'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\u{000c}');},
             (StringLiteralPrefixLastState::Start           , 'n'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\n');},
-            (StringLiteralPrefixLastState::Start           , '\n'                             ) => {last_state = StringLiteralPrefixLastState::Inside          ;},
+            (StringLiteralPrefixLastState::Start           , '\r'                             ) => {last_state = StringLiteralPrefixLastState::StartCr         ;},
+            (StringLiteralPrefixLastState::Start           , '\n' | '\u{2028}' | '\u{2029}') => {last_state = StringLiteralPrefixLastState::Inside;},
+            (StringLiteralPrefixLastState::StartCr         , '\n'                             ) => {last_state = StringLiteralPrefixLastState::Inside          ;},
             (StringLiteralPrefixLastState::Start           , 'r'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\r');},
             (StringLiteralPrefixLastState::Start           , 't'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\t');},
             (StringLiteralPrefixLastState::Start           , 'v'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\u{000b}');},
-- 
2.43.0


From f036dc226c8d164844d5c418e7856a13b0897e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:06 +0000
Subject: [PATCH 12/41] fix: compare HTML attribute names without regard to
 ASCII case

---
 src/glue/parse/html/get_attribute.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/glue/parse/html/get_attribute.rs b/src/glue/parse/html/get_attribute.rs
index 1eb559c..b598b06 100644
--- a/src/glue/parse/html/get_attribute.rs
+++ b/src/glue/parse/html/get_attribute.rs
@@ -233,10 +233,10 @@ fn munch(state: &mut GAVState, i: usize, c: char) -> Result<(), GAVSyntaxErrorKi
 
 
         (LB::AfterAttributeName, '\t' | '\r' | '\n' | ' ') => {},
-        (LB::AfterAttributeName, '/'                     ) => {state.last_bite = LB::SelfClosingStartTag ; if &state.input[state.attr_name_start..state.attr_name_end] == state.name {state.ret = Some(None);}},
+        (LB::AfterAttributeName, '/'                     ) => {state.last_bite = LB::SelfClosingStartTag ; if state.input[state.attr_name_start..state.attr_name_end].eq_ignore_ascii_case(state.name) {state.ret = Some(None);}},
         (LB::AfterAttributeName, '='                     ) => {state.last_bite = LB::BeforeAttributeValue;},
-        (LB::AfterAttributeName, '>'                     ) => {state.last_bite = LB::Done; if &state.input[state.attr_name_start..state.attr_name_end] == state.name {state.ret = Some(None);}},
-        (LB::AfterAttributeName, _                       ) => {state.last_bite = LB::AttributeName       ; if &state.input[state.attr_name_start..state.attr_name_end] == state.name {state.ret = Some(None);} state.attr_name_start = i; munch(state, i, c)?;},
+        (LB::AfterAttributeName, '>'                     ) => {state.last_bite = LB::Done; if state.input[state.attr_name_start..state.attr_name_end].eq_ignore_ascii_case(state.name) {state.ret = Some(None);}},
+        (LB::AfterAttributeName, _                       ) => {state.last_bite = LB::AttributeName       ; if state.input[state.attr_name_start..state.attr_name_end].eq_ignore_ascii_case(state.name) {state.ret = Some(None);} state.attr_name_start = i; munch(state, i, c)?;},
 
 
         (LB::BeforeAttributeValue, '\t' | '\r' | '\n' | ' ') => {},
@@ -248,21 +248,21 @@ fn munch(state: &mut GAVState, i: usize, c: char) -> Result<(), GAVSyntaxErrorKi
         (LB::BeforeAttributeValue, _                       ) => {state.last_bite = LB::AttributeValueUnquoted; state.attr_value_start = i; munch(state, i, c)?;},
 
 
-        (LB::AttributeValueDoubleQuoted, '"' ) => {state.last_bite = LB::AfterAttributeValueQuoted; if &state.input[state.attr_name_start..state.attr_name_end] == state.name {state.ret = Some(Some(&state.input[state.attr_value_start..i]));}},
+        (LB::AttributeValueDoubleQuoted, '"' ) => {state.last_bite = LB::AfterAttributeValueQuoted; if state.input[state.attr_name_start..state.attr_name_end].eq_ignore_ascii_case(state.name) {state.ret = Some(Some(&state.input[state.attr_value_start..i]));}},
         (LB::AttributeValueDoubleQuoted, '&' ) => {}, // Processed later.
         (LB::AttributeValueDoubleQuoted, '\0') => Err(EK::UnexpectedNullCharacter)?,
         (LB::AttributeValueDoubleQuoted, _   ) => {},
 
 
-        (LB::AttributeValueSingleQuoted, '\'') => {state.last_bite = LB::AfterAttributeValueQuoted; if &state.input[state.attr_name_start..state.attr_name_end] == state.name {state.ret = Some(Some(&state.input[state.attr_value_start..i]));}},
+        (LB::AttributeValueSingleQuoted, '\'') => {state.last_bite = LB::AfterAttributeValueQuoted; if state.input[state.attr_name_start..state.attr_name_end].eq_ignore_ascii_case(state.name) {state.ret = Some(Some(&state.input[state.attr_value_start..i]));}},
         (LB::AttributeValueSingleQuoted, '&' ) => {}, // Processed later.
         (LB::AttributeValueSingleQuoted, '\0') => Err(EK::UnexpectedNullCharacter)?,
         (LB::AttributeValueSingleQuoted, _   ) => {},
 
 
-        (LB::AttributeValueUnquoted, '\t' | '\r' | '\n' | ' ') => {state.last_bite = LB::BeforeAttributeName; if &state.input[state.attr_name_start..state.attr_name_end] == state.name {state.ret = Some(Some(&state.input[state.attr_value_start..i]));}},
+        (LB::AttributeValueUnquoted, '\t' | '\r' | '\n' | ' ') => {state.last_bite = LB::BeforeAttributeName; if state.input[state.attr_name_start..state.attr_name_end].eq_ignore_ascii_case(state.name) {state.ret = Some(Some(&state.input[state.attr_value_start..i]));}},
         (LB::AttributeValueUnquoted, '&'                     ) => {}, // Processed later.
-        (LB::AttributeValueUnquoted, '>'                     ) => {state.last_bite = LB::Done; if &state.input[state.attr_name_start..state.attr_name_end] == state.name {state.ret = Some(Some(&state.input[state.attr_value_start..i]));}},
+        (LB::AttributeValueUnquoted, '>'                     ) => {state.last_bite = LB::Done; if state.input[state.attr_name_start..state.attr_name_end].eq_ignore_ascii_case(state.name) {state.ret = Some(Some(&state.input[state.attr_value_start..i]));}},
         (LB::AttributeValueUnquoted, '\0'                    ) => Err(EK::UnexpectedNullCharacter)?,
         (LB::AttributeValueUnquoted, _                       ) => {},
 
-- 
2.43.0


From 4f70a7f9edbd03185699f9e10346353cfe56624e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:34 +0000
Subject: [PATCH 13/41] fix: apply the referer of a HttpClientConfigDiff to
 referer instead of no_proxy

---
 src/glue/http_client_config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glue/http_client_config.rs b/src/glue/http_client_config.rs
index f5b0982..6018f40 100644
--- a/src/glue/http_client_config.rs
+++ b/src/glue/http_client_config.rs
@@ -146,7 +146,7 @@ impl HttpClientConfigDiff {
         if let Some(set_proxies) = &self.set_proxies {to.proxies.clone_from(set_proxies);}
         to.proxies.extend(self.add_proxies.clone());
         if let Some(no_proxy) = self.no_proxy {to.no_proxy = no_proxy;}
-        if let Some(referer) = self.referer {to.no_proxy = referer;}
+        if let Some(referer) = self.referer {to.referer = referer;}
         to.extra_certificates.extend(self.add_extra_certificates.clone());
         to.extra_certificates.retain(|extra_certificate| !self.remove_extra_certificates.contains(extra_certificate));
     }
-- 
2.43.0


From 00c359f2dec99476804879c561beb59a3634494a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:34 +0000
Subject: [PATCH 14/41] fix: apply --no-proxy when no other parameter override
 is given

---
 src/types/config/params.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/config/params.rs b/src/types/config/params.rs
index d1d56b3..2355e51 100644
--- a/src/types/config/params.rs
+++ b/src/types/config/params.rs
@@ -391,7 +391,7 @@ impl ParamsDiffArgParser {
         let mut feature_flag_make_params_diff = false;
         #[cfg(feature = "cache")] #[allow(clippy::unnecessary_operation, reason = "False positive.")] {feature_flag_make_params_diff = feature_flag_make_params_diff || self.read_cache.is_some()};
         #[cfg(feature = "cache")] #[allow(clippy::unnecessary_operation, reason = "False positive.")] {feature_flag_make_params_diff = feature_flag_make_params_diff || self.write_cache.is_some()};
-        #[cfg(feature = "http" )] #[allow(clippy::unnecessary_operation, reason = "False positive.")] {feature_flag_make_params_diff = feature_flag_make_params_diff || self.proxy.is_some()};
+        #[cfg(feature = "http" )] #[allow(clippy::unnecessary_operation, reason = "False positive.")] {feature_flag_make_params_diff = feature_flag_make_params_diff || self.proxy.is_some() || self.no_proxy.is_some()};
         !self.flag.is_empty() || !self.unflag.is_empty() || !self.var.is_empty() || !self.unvar.is_empty() || !self.insert_into_set.is_empty() || !self.remove_from_set.is_empty() || !self.insert_into_map.is_empty() || !self.remove_from_map.is_empty() || feature_flag_make_params_diff
     }
 }
-- 
2.43.0


From 1a48c27390240b6e417dc88c4e6e7a626ca3837c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:00 +0000
Subject: [PATCH 15/41] fix: keep earlier values when a set or map is named by
 several command line overrides

---
 src/types/config/params.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/types/config/params.rs b/src/types/config/params.rs
index 2355e51..b373a6f 100644
--- a/src/types/config/params.rs
+++ b/src/types/config/params.rs
@@ -344,8 +344,26 @@ impl ParamsDiffArgParser {
             }).collect::<Result<_, _>>()?,
             unvars : self.unvar.into_iter().collect(),
             init_sets: Default::default(),
-            insert_into_sets: self.insert_into_set.into_iter().map(|mut x| if !x.is_empty() {Ok((x.swap_remove(0), x))} else {Err(ParamsDiffArgParserValueWrong::InsertIntoSetsNoName)}).collect::<Result<_, _>>()?,
-            remove_from_sets: self.remove_from_set.into_iter().map(|mut x| if !x.is_empty() {Ok((x.swap_remove(0), x))} else {Err(ParamsDiffArgParserValueWrong::RemoveFromSetsNoName)}).collect::<Result<_, _>>()?,
+            insert_into_sets: {
+                let mut ret = HashMap::<String, Vec<String>>::new();
+
+                for invocation in self.insert_into_set {
+                    let mut x = invocation.into_iter();
+                    ret.entry(x.next().ok_or(ParamsDiffArgParserValueWrong::InsertIntoSetsNoName)?).or_default().extend(x);
+                }
+
+                ret
+            },
+            remove_from_sets: {
+                let mut ret = HashMap::<String, Vec<String>>::new();
+
+                for invocation in self.remove_from_set {
+                    let mut x = invocation.into_iter();
+                    ret.entry(x.next().ok_or(ParamsDiffArgParserValueWrong::RemoveFromSetsNoName)?).or_default().extend(x);
+                }
+
+                ret
+            },
             delete_sets     : Default::default(),
             init_maps       : Default::default(),
             map_diffs       : {
@@ -354,7 +372,7 @@ impl ParamsDiffArgParser {
                 for invocation in self.insert_into_map {
                     if invocation.len() % 2 == 1 {
                         let mut x = invocation.into_iter();
-                        ret.entry(x.next().ok_or(ParamsDiffArgParserValueWrong::InsertIntoMapNoName)?).or_default().insert_into_map = std::iter::from_fn(|| x.next().zip(x.next())).collect();
+                        ret.entry(x.next().ok_or(ParamsDiffArgParserValueWrong::InsertIntoMapNoName)?).or_default().insert_into_map.extend(std::iter::from_fn(|| x.next().zip(x.next())));
                     } else {
                         Err(ParamsDiffArgParserValueWrong::InsertIntoMapKeyWithoutValue)?
                     }
@@ -364,7 +382,7 @@ impl ParamsDiffArgParser {
                     if !invocation.is_empty() {
                         let mut x = invocation.into_iter();
                         let name = x.next().ok_or(ParamsDiffArgParserValueWrong::RemoveFromMapNoMapSpecified)?;
-                        ret.entry(name).or_default().remove_from_map = x.collect();
+                        ret.entry(name).or_default().remove_from_map.extend(x);
                     } else {
                         Err(ParamsDiffArgParserValueWrong::RemoveFromMapNoMapSpecified)?
                     }
-- 
2.43.0


From 0844af5fe72b1366bc7c0a7336f4e003ac3c57a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:55 +0000
Subject: [PATCH 16/41] fix: overwrite cache entries instead of adding a second
 one that is never read

---
 src/glue/caching.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/glue/caching.rs b/src/glue/caching.rs
index 9e143b5..77debce 100644
--- a/src/glue/caching.rs
+++ b/src/glue/caching.rs
@@ -293,6 +293,7 @@ impl InnerCache {
         Ok(cache::dsl::cache
             .filter(cache::dsl::category.eq(category))
             .filter(cache::dsl::key.eq(key))
+            .order(cache::dsl::id.desc())
             .limit(1)
             .select(CacheEntry::as_select())
             .load(self.connect()?)?
@@ -304,14 +305,14 @@ impl InnerCache {
     /// # Errors
     /// If the call to [`Self::connect`] returns an error, that error is returned.
     ///
-    /// If the call to [`RunQueryDsl::get_result`] returns an error, that error is returned.
+    /// If the call to [`SqliteConnection::immediate_transaction`] returns an error, that error is returned.
     pub fn write(&mut self, category: &str, key: &str, value: Option<&str>) -> Result<(), WriteToCacheError> {
         debug!(InnerCache::write, self, category, key, value);
-        diesel::replace_into(cache::table)
-            .values(&NewCacheEntry {category, key, value})
-            .returning(CacheEntry::as_returning())
-            .get_result(self.connect()?)?;
-        Ok(())
+        self.connect()?.immediate_transaction(|connection| {
+            diesel::delete(cache::table.filter(cache::dsl::category.eq(category)).filter(cache::dsl::key.eq(key))).execute(connection)?;
+            diesel::insert_into(cache::table).values(&NewCacheEntry {category, key, value}).execute(connection)?;
+            Ok(())
+        })
     }
 }
 
-- 
2.43.0


From c271e8cbc6945b02ee3f36862cadc40d5455d758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:55 +0000
Subject: [PATCH 17/41] fix: make the cache usable by several processes and
 after a crash during its creation

---
 src/glue/caching.rs | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/src/glue/caching.rs b/src/glue/caching.rs
index 77debce..8888353 100644
--- a/src/glue/caching.rs
+++ b/src/glue/caching.rs
@@ -27,7 +27,7 @@ diesel::table! {
 }
 
 /// The Sqlite command to initialize the cache databese.
-pub const DB_INIT_COMMAND: &str = r#"CREATE TABLE cache (
+pub const DB_INIT_COMMAND: &str = r#"CREATE TABLE IF NOT EXISTS cache (
     id INTEGER NOT NULL PRIMARY KEY,
     category TEXT NOT NULL,
     "key" TEXT NOT NULL,
@@ -251,28 +251,17 @@ impl InnerCache {
 
     /// Returns the connection, connecting if not already connected.
     /// # Errors
-    /// If the call to [`std::fs::exists`] to check if the database exists returns an error, that error is returned.
-    ///
-    /// If the call to [`std::fs::File::create_new`] to create the database returns an error, that error is returned.
-    ///
     /// If the call to [`SqliteConnection::establish`] to connect to the database returns an error, that error is returned.
     ///
-    /// If the call to [`SqlQuery::execute`] to initialize the database returns an error, that error is returned.
+    /// If a call to [`SqlQuery::execute`] to set up the connection or the database returns an error, that error is returned.
     #[allow(clippy::missing_panics_doc, reason = "Doesn't panic, but should be replaced with OnceCell::get_or_try_init once that's stable.")]
     pub fn connect(&mut self) -> Result<&mut SqliteConnection, ConnectCacheError> {
         debug!(InnerCache::connect, self);
         if self.connection.get().is_none() {
-            let mut needs_init = self.path == CachePath::Memory;
-            if let CachePath::Path(path) = &self.path {
-                if !std::fs::exists(path)? {
-                    needs_init = true;
-                    std::fs::File::create_new(path)?;
-                }
-            }
             let mut connection = SqliteConnection::establish(self.path.as_str())?;
-            if needs_init {
-                diesel::sql_query(DB_INIT_COMMAND).execute(&mut connection)?;
-            }
+            // Other processes may be using the same database.
+            diesel::sql_query("PRAGMA busy_timeout = 10000").execute(&mut connection)?;
+            diesel::sql_query(DB_INIT_COMMAND).execute(&mut connection)?;
             self.connection.set(connection).map_err(|_| ()).expect("The connection to have just been confirmed unset.");
         }
         Ok(self.connection.get_mut().expect("The connection to have just been set."))
-- 
2.43.0


From 70b231001fc0b285caf7dbf6c69a51a150418f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:56 +0000
Subject: [PATCH 18/41] fix: accept null, booleans and arrays where JSON values
 are configured

---
 src/glue/json.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/glue/json.rs b/src/glue/json.rs
index 68afc9f..a6c5579 100644
--- a/src/glue/json.rs
+++ b/src/glue/json.rs
@@ -83,6 +83,18 @@ impl<'de> Deserialize<'de> for StringSourceJsonValue {
                 Self::Value::deserialize(serde::de::value::MapAccessDeserializer::new(map))
             }
 
+            fn visit_seq<S: serde::de::SeqAccess<'de>>(self, seq: S) -> Result<Self::Value, S::Error> {
+                Vec::<Self::Value>::deserialize(serde::de::value::SeqAccessDeserializer::new(seq)).map(Self::Value::Array)
+            }
+
+            fn visit_unit<E>(self) -> Result<Self::Value, E> {
+                Ok(Self::Value::Null)
+            }
+
+            fn visit_bool<E>(self, value: bool) -> Result<Self::Value, E> {
+                Ok(Self::Value::Bool(value))
+            }
+
             fn visit_i64<E>(self, value: i64) -> Result<Self::Value, E> {
                 Ok(Value::Number(value.into()).into())
             }
-- 
2.43.0


From 4c77af4cc1e016794f5e06c78b2942e611199514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:06 +0000
Subject: [PATCH 19/41] fix: resolve relative redirect targets against the
 redirected URL

---
 src/types/rules/mappers.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/types/rules/mappers.rs b/src/types/rules/mappers.rs
index ee496e9..4cc7f99 100644
--- a/src/types/rules/mappers.rs
+++ b/src/types/rules/mappers.rs
@@ -340,7 +340,7 @@ pub enum Mapper {
     ///
     /// If the `Location` header's call to [`std::str::from_utf8`] returns an error, that error is returned.
     ///
-    /// If the `Location` header's call to [`BetterUrl::parse`] returns an error, that error is returned.
+    /// If joining the response's URL with the `Location` header returns an error, that error is returned.
     #[cfg_attr(feature = "cache", doc = "")]
     #[cfg_attr(feature = "cache", doc = "If the call to [`Cache::write`] returns an error, that error is returned.")]
     #[cfg(feature = "http")]
@@ -777,8 +777,8 @@ impl Mapper {
                     }
                 }
                 let response = task_state.to_view().http_client(http_client_config_diff.as_deref())?.get(task_state.url.as_str()).headers(headers.clone()).send()?;
-                let new_url = if response.status().is_redirection() {
-                    BetterUrl::parse(std::str::from_utf8(response.headers().get("location").ok_or(MapperError::LocationHeaderNotFound)?.as_bytes())?)?
+                let new_url: BetterUrl = if response.status().is_redirection() {
+                    response.url().join(std::str::from_utf8(response.headers().get("location").ok_or(MapperError::LocationHeaderNotFound)?.as_bytes())?)?.into()
                 } else {
                     response.url().clone().into()
                 };
-- 
2.43.0


From 41f32067a184c0aa58b1c95cb428eec2c602f696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:03 +0000
Subject: [PATCH 20/41] fix: read a command's output while writing its input,
 and let it ignore its input

---
 src/glue/command.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/glue/command.rs b/src/glue/command.rs
index 5b48067..dec820b 100644
--- a/src/glue/command.rs
+++ b/src/glue/command.rs
@@ -138,27 +138,35 @@ impl CommandConfig {
     ///
     /// If the call to [`StringSource::get`] returns [`None`], returns the errorr [`CommandError::StringSourceIsNone`].
     ///
-    /// If the call to [`ChildStdin::write_all`] returns an error, that error is returned.
+    /// If the call to [`ChildStdin::write_all`] returns an error other than the program not reading all of its STDIN, that error is returned.
     ///
     /// If the call to [`Child::wait_with_output`] returns an error, that error is returned.
     ///
     /// If the call to [`std::str::from_utf8`] returns an error, that error is returned.
     #[allow(clippy::missing_panics_doc, reason = "Shouldn't ever panic.")]
     pub fn output(&self, job_state: &TaskStateView) -> Result<String, CommandError> {
-        // https://stackoverflow.com/a/49597789/10720231
         let mut command = self.build(job_state)?;
         command.stdout(Stdio::piped());
         command.stderr(Stdio::null());
-        let child = if let Some(stdin) = &self.stdin {
-            command.stdin(Stdio::piped());
-            let mut child=command.spawn()?;
-            let child_stdin=child.stdin.as_mut().expect("The STDIN just set to be available."); // This never panics.
-            child_stdin.write_all(get_string!(stdin, job_state, CommandError).as_bytes())?;
-            child
-        } else {
-            command.spawn()?
+        let Some(stdin) = &self.stdin else {
+            return Ok(from_utf8(&command.spawn()?.wait_with_output()?.stdout)?.to_string());
         };
-        Ok(from_utf8(&child.wait_with_output()?.stdout)?.to_string())
+        let stdin = get_string!(stdin, job_state, CommandError);
+        command.stdin(Stdio::piped());
+        let mut child = command.spawn()?;
+        let mut child_stdin = child.stdin.take().expect("The STDIN just set to be available."); // This never panics.
+        // STDIN is written while STDOUT is read, as otherwise both processes could end up waiting for the other to make space in a pipe.
+        let (written, output) = std::thread::scope(|scope| {
+            let writer = scope.spawn(move || child_stdin.write_all(stdin.as_bytes()));
+            let output = child.wait_with_output();
+            (writer.join().expect("Writing to never panic."), output)
+        });
+        match written {
+            // The program doesn't have to read all of its STDIN.
+            Err(e) if e.kind() != std::io::ErrorKind::BrokenPipe => Err(e)?,
+            _ => {}
+        }
+        Ok(from_utf8(&output?.stdout)?.to_string())
     }
 
     /// Executes the command and gets a [`Url`] from the first and only line of its STDOUT, trimming any trailing `\r` and `\n`.
-- 
2.43.0


From 55c8ea701645c5824de6b59c98eaf1e4436f0dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:03 +0000
Subject: [PATCH 21/41] fix: don't let commands without an input take the tasks
 on STDIN

---
 src/glue/command.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glue/command.rs b/src/glue/command.rs
index dec820b..84df27a 100644
--- a/src/glue/command.rs
+++ b/src/glue/command.rs
@@ -149,6 +149,8 @@ impl CommandConfig {
         command.stdout(Stdio::piped());
         command.stderr(Stdio::null());
         let Some(stdin) = &self.stdin else {
+            // Not inheriting STDIN, as that's where the CLI gets its tasks from.
+            command.stdin(Stdio::null());
             return Ok(from_utf8(&command.spawn()?.wait_with_output()?.stdout)?.to_string());
         };
         let stdin = get_string!(stdin, job_state, CommandError);
-- 
2.43.0


From 0e8b7d37e05128149004f578bf3fb3ca90477dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:49 +0000
Subject: [PATCH 22/41] fix: give a command its input when its exit code is
 asked for

---
 src/glue/command.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/glue/command.rs b/src/glue/command.rs
index 84df27a..c029772 100644
--- a/src/glue/command.rs
+++ b/src/glue/command.rs
@@ -2,7 +2,7 @@
 //!
 //! No the default config does not and will never use this.
 
-use std::process::{Command, Stdio};
+use std::process::{Command, Output, Stdio};
 use std::io::Write;
 use std::path::PathBuf;
 use std::str::{from_utf8, FromStr};
@@ -123,11 +123,17 @@ impl CommandConfig {
     /// # Errors
     /// If the call to [`Self::build`] returns an error, that error is returned.
     ///
-    /// If the call to [`Command::status`] returns an error, that error is returned.
+    /// If the call to [`Command::spawn`] returns an error, that error is returned.
+    ///
+    /// If the call to [`StringSource::get`] returns [`None`], returns the errorr [`CommandError::StringSourceIsNone`].
+    ///
+    /// If the call to [`ChildStdin::write_all`] returns an error other than the program not reading all of its STDIN, that error is returned.
+    ///
+    /// If the call to [`Child::wait_with_output`] returns an error, that error is returned.
     ///
     /// If the call to [`ExitStatus::code`] returns [`None`], returns the error [`CommandError::SignalTermination`].
     pub fn exit_code(&self, job_state: &TaskStateView) -> Result<i32, CommandError> {
-        self.build(job_state)?.status()?.code().ok_or(CommandError::SignalTermination)
+        self.run(self.build(job_state)?, job_state)?.status.code().ok_or(CommandError::SignalTermination)
     }
 
     /// Executes the command and returns its STDOUT.
@@ -148,10 +154,16 @@ impl CommandConfig {
         let mut command = self.build(job_state)?;
         command.stdout(Stdio::piped());
         command.stderr(Stdio::null());
+        Ok(from_utf8(&self.run(command, job_state)?.stdout)?.to_string())
+    }
+
+    /// Runs a [`Command`] from [`Self::build`] with [`Self::stdin`] as its STDIN.
+    #[allow(clippy::missing_panics_doc, reason = "Shouldn't ever panic.")]
+    fn run(&self, mut command: Command, job_state: &TaskStateView) -> Result<Output, CommandError> {
         let Some(stdin) = &self.stdin else {
             // Not inheriting STDIN, as that's where the CLI gets its tasks from.
             command.stdin(Stdio::null());
-            return Ok(from_utf8(&command.spawn()?.wait_with_output()?.stdout)?.to_string());
+            return Ok(command.spawn()?.wait_with_output()?);
         };
         let stdin = get_string!(stdin, job_state, CommandError);
         command.stdin(Stdio::piped());
@@ -168,7 +180,7 @@ impl CommandConfig {
             Err(e) if e.kind() != std::io::ErrorKind::BrokenPipe => Err(e)?,
             _ => {}
         }
-        Ok(from_utf8(&output?.stdout)?.to_string())
+        Ok(output?)
     }
 
     /// Executes the command and gets a [`Url`] from the first and only line of its STDOUT, trimming any trailing `\r` and `\n`.
-- 
2.43.0


From 13fff9a9410c6ca9161fa5d29a56849c1883e250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 23/41] fix: stop reading STDIN once it cannot be read

---
 src/main.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 58a60fd..26a7116 100755
--- a/src/main.rs
+++ b/src/main.rs
@@ -181,7 +181,13 @@ fn main() -> Result<ExitCode, CliError> {
             let task_config_strings_source: Box<dyn Iterator<Item = Result<String, io::Error>>> = {
                 let ret = args.urls.into_iter().map(Ok);
                 if !io::stdin().is_terminal() {
-                    Box::new(ret.chain(io::stdin().lines()))
+                    let mut lines = Some(io::stdin().lines());
+                    Box::new(ret.chain(std::iter::from_fn(move || {
+                        let line = lines.as_mut()?.next();
+                        // A line that isn't UTF-8 is over with; Any other error is about STDIN itself and would just be returned forever.
+                        if matches!(&line, Some(Err(e)) if e.kind() != io::ErrorKind::InvalidData) {lines = None;}
+                        line
+                    })))
                 } else {
                     Box::new(ret)
                 }
-- 
2.43.0


From 483e0e838e1312e97faead2a90ed55a5818160bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:10 +0000
Subject: [PATCH 24/41] fix: don't request tinyurl.com and ShareASale links
 when no-network is set

---
 default-config.json | 85 +++++++++++++++++++++++++--------------------
 1 file changed, 47 insertions(+), 38 deletions(-)

diff --git a/default-config.json b/default-config.json
index 560e03e..ac911d6 100755
--- a/default-config.json
+++ b/default-config.json
@@ -636,30 +636,36 @@
 															]}
 														}}
 													}},
-													{"All": [
-														{"SetHost": "shareasale-analytics.com"},
-														{"AllowQueryParams": ["b", "u", "m"]},
-														{"Common": "universal"},
-														{"SetPart": {
-															"part": "Whole",
-															"value": {"Modified": {
-																"value": {"Cache": {
-																	"category": "sharesale-escaped-redirect",
-																	"key": {"Part": "Whole"},
-																	"value": {"ExtractBetween": {
-																		"value": {"HttpRequest": {}},
-																		"start": "replace(",
-																		"end": ")"
-																	}}
-																}},
-																"modification": "GetJsStringLiteralPrefix"
+													{"If": {
+														"condition": {"Not": {"FlagIsSet": "no-network"}},
+														"mapper": {"All": [
+															{"SetHost": "shareasale-analytics.com"},
+															{"AllowQueryParams": ["b", "u", "m"]},
+															{"Common": "universal"},
+															{"SetPart": {
+																"part": "Whole",
+																"value": {"Modified": {
+																	"value": {"Cache": {
+																		"category": "sharesale-escaped-redirect",
+																		"key": {"Part": "Whole"},
+																		"value": {"ExtractBetween": {
+																			"value": {"HttpRequest": {}},
+																			"start": "replace(",
+																			"end": ")"
+																		}}
+																	}},
+																	"modification": "GetJsStringLiteralPrefix"
+																}}
 															}}
-														}}
-													]}
+														]}
+													}}
 												]}
 											}},
 											"shareasale.com": {"If": {
-												"condition": {"PathIs": "/r.cfm"},
+												"condition": {"All": [
+													{"Not": {"FlagIsSet": "no-network"}},
+													{"PathIs": "/r.cfm"}
+												]},
 												"mapper": {"All": [
 													{"SetHost": "shareasale-analytics.com"},
 													{"AllowQueryParams": ["b", "u", "m"]},
@@ -770,25 +776,28 @@
 											}},
 											"t.umblr.com": {"GetUrlFromQueryParam": "z"},
 											"tee.pub": {"SetHost": "www.teepublic.com"},
-											"tinyurl.com": {"All": [
-												{"PartMap": {
-													"part": {"PathSegment": 0},
-													"map": {
-														"preview": "None",
-														"app": {"SetPart": {"part": {"PathSegment": 0}, "value": "preview"}}
-													},
-													"else": {"SetPart": {"part": {"BeforePathSegment": 0}, "value": "preview"}}
-												}},
-												{"Common": {
-													"name": "extract-from-page-no-if",
-													"args": {
-														"vars": {
-															"start": "let url = \"",
-															"end": "\""
+											"tinyurl.com": {"If": {
+												"condition": {"Not": {"FlagIsSet": "no-network"}},
+												"mapper": {"All": [
+													{"PartMap": {
+														"part": {"PathSegment": 0},
+														"map": {
+															"preview": "None",
+															"app": {"SetPart": {"part": {"PathSegment": 0}, "value": "preview"}}
+														},
+														"else": {"SetPart": {"part": {"BeforePathSegment": 0}, "value": "preview"}}
+													}},
+													{"Common": {
+														"name": "extract-from-page-no-if",
+														"args": {
+															"vars": {
+																"start": "let url = \"",
+																"end": "\""
+															}
 														}
-													}
-												}}
-											]},
+													}}
+												]}
+											}},
 											"toyhou.se": {"If": {
 												"condition": {"PathIs": "/~r"},
 												"mapper": {"GetUrlFromQueryParam": "q"}
-- 
2.43.0


From 141de37cf0f6e8e52ecce817341a6b768ae10f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:17 +0000
Subject: [PATCH 25/41] fix: keep links to deviantart.com itself from failing

---
 default-config.json | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/default-config.json b/default-config.json
index ac911d6..5fcf6ef 100755
--- a/default-config.json
+++ b/default-config.json
@@ -1219,7 +1219,7 @@
 							"deviantart.com": {"If": {
 								"condition": {"All": [
 									{"Not": {"PartIs": {"part": "Subdomain", "value": "www"}}},
-									{"Not": {"PartIs": {"part": "Subdomain", "value": ""}}}
+									{"Not": {"PartIs": {"part": "Subdomain", "value": null}}}
 								]},
 								"mapper": {"MovePart": {"from": "Subdomain", "to": {"BeforePathSegment": 0}}}
 							}},
-- 
2.43.0


From ab8e8f30b1a643c8c21ad7ae8ad0331af12116e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:17 +0000
Subject: [PATCH 26/41] fix: keep tumblr.com links without a blog's subdomain
 from failing under tumblr-unsubdomain-blog

---
 default-config.json | 1 +
 1 file changed, 1 insertion(+)

diff --git a/default-config.json b/default-config.json
index 5fcf6ef..8978985 100755
--- a/default-config.json
+++ b/default-config.json
@@ -1400,6 +1400,7 @@
 								{
 									"condition": {"All": [
 										{"FlagIsSet": "tumblr-unsubdomain-blog"},
+										{"Not": {"PartIs": {"part": "Subdomain", "value": null}}},
 										{"Not": {"PartIsOneOf": {"part": "Subdomain", "values": ["at", "www"]}}}
 									]},
 									"mapper": {"All": [
-- 
2.43.0


From 2154a556a7ab54aad447178dd3364be84cfb4612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:17 +0000
Subject: [PATCH 27/41] fix: keep the query of a blog's search after
 tumblr-unsubdomain-blog

---
 default-config.json | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/default-config.json b/default-config.json
index 8978985..24e6c31 100755
--- a/default-config.json
+++ b/default-config.json
@@ -1390,7 +1390,13 @@
 									"mapper": {"GetUrlFromQueryParam": "url"}
 								},
 								{
-									"condition": {"Not": {"PartIs": {"part": {"PathSegment": 0}, "value": "search"}}},
+									"condition": {"Not": {"Any": [
+										{"PartIs": {"part": {"PathSegment": 0}, "value": "search"}},
+										{"All": [
+											{"PartIs": {"part": "Subdomain", "value": null}},
+											{"PartIs": {"part": {"PathSegment": 1}, "value": "search"}}
+										]}
+									]}},
 									"mapper": "RemoveQuery"
 								},
 								{
-- 
2.43.0


From 4a8d85943dfae1a0224b1c7b0702094bef9226e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:18 +0000
Subject: [PATCH 28/41] fix: convert a wiki's main page, and only wikis,
 between Fandom and BreezeWiki

---
 default-config.json | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/default-config.json b/default-config.json
index 24e6c31..73a8329 100755
--- a/default-config.json
+++ b/default-config.json
@@ -1058,7 +1058,11 @@
 							]},
 							"mapper": {"All": [
 								{"SetHost": "fandom.com"},
-								{"MovePart": {"from": {"PathSegment": 0}, "to": "Subdomain"}}
+								{"CopyPart": {"from": {"PathSegment": 0}, "to": "Subdomain"}},
+								{"TryElse": {
+									"try": {"SetPart": {"part": {"PathSegment": 0}, "value": null}},
+									"else": {"SetPart": {"part": "Path", "value": "/"}}
+								}}
 							]}
 						}},
 						"discord-external": {"If": {
@@ -1241,7 +1245,11 @@
 									}
 								}},
 								{"If": {
-									"condition": {"FlagIsSet": "breezewiki"},
+									"condition": {"All": [
+										{"FlagIsSet": "breezewiki"},
+										{"Not": {"PartIs": {"part": "Subdomain", "value": null}}},
+										{"Not": {"PartIs": {"part": "Subdomain", "value": "www"}}}
+									]},
 									"mapper": {"All": [
 										{"CopyPart": {"from": "Subdomain", "to": {"BeforePathSegment": 0}}},
 										{"SetPart": {"part": "Host", "value": {"Var": "breezewiki-host"}}},
-- 
2.43.0


From 9399f6085c4fe416c0ea1621d3491f5fd2754d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:18 +0000
Subject: [PATCH 29/41] fix: keep product IDs when an Amazon or Walmart link is
 cleaned again

---
 default-config.json | 112 +++++++++++++++++++++++---------------------
 1 file changed, 59 insertions(+), 53 deletions(-)

diff --git a/default-config.json b/default-config.json
index 73a8329..9b4cd88 100755
--- a/default-config.json
+++ b/default-config.json
@@ -1563,61 +1563,64 @@
 					"PartRuleMap": {
 						"part": "DomainMiddle",
 						"map": {
-							"amazon": {"Rules": [
-								{
-									"condition": {"PartContains": {"part": "Path", "value": "/dp/"}},
-									"mapper": {"AllowQueryParams": ["aod"]}
-								},
-								{
-									"PartMap": {
-										"part": "Path",
-										"map": {
-											"/s": {"AllowQueryParams": ["k", "i", "rh", "bbn"]},
-											"/gp/buyagain": {"AllowQueryParams": ["ats"]},
-											"/gp/customer-reviews": "RemoveQuery",
-											"/amazonprime": "RemoveQuery"
+							"amazon": {"Repeat": {
+								"rules": [
+									{
+										"condition": {"PartContains": {"part": "Path", "value": "/dp/"}},
+										"mapper": {"AllowQueryParams": ["aod"]}
+									},
+									{
+										"PartMap": {
+											"part": "Path",
+											"map": {
+												"/s": {"AllowQueryParams": ["k", "i", "rh", "bbn"]},
+												"/gp/buyagain": {"AllowQueryParams": ["ats"]},
+												"/gp/customer-reviews": "RemoveQuery",
+												"/amazonprime": "RemoveQuery"
+											}
 										}
-									}
-								},
-								{"Mapper": {"RemoveQueryParamsMatching": {"Any": [
-									{"IsOneOf": ["ref", "ref_", "ie", "_encoding", "content-id", "store_ref"]},
-									{"Contains": {"value": "pd_", "where": "Start"}},
-									{"Contains": {"value": "pf_", "where": "Start"}}
-								]}}},
-								{
-									"condition": {"PartIs": {"part": {"PathSegment": 0}, "value": "product-reviews"}},
-									"mapper": "RemoveQuery"
-								},
-								{
-									"condition": {"Any": [
-										{"PartContains": {"part": {"PathSegment": -1}, "where": "Start", "value": "ref="}},
-										{"All": [
-											{"PartContains": {"part": "Path", "value": "/dp/"}},
-											{"Any": [
-												{"PartContains": {"part": {"PathSegment": -1}, "where": "Anywhere", "value": "-"}},
-												{"PartMatches" : {"part": {"PathSegment": -1}, "matcher": {"OnlyTheseChars": ["0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "0", "-"]}}}
+									},
+									{"Mapper": {"RemoveQueryParamsMatching": {"Any": [
+										{"IsOneOf": ["ref", "ref_", "ie", "_encoding", "content-id", "store_ref"]},
+										{"Contains": {"value": "pd_", "where": "Start"}},
+										{"Contains": {"value": "pf_", "where": "Start"}}
+									]}}},
+									{
+										"condition": {"PartIs": {"part": {"PathSegment": 0}, "value": "product-reviews"}},
+										"mapper": "RemoveQuery"
+									},
+									{
+										"condition": {"Any": [
+											{"PartContains": {"part": {"PathSegment": -1}, "where": "Start", "value": "ref="}},
+											{"All": [
+												{"PartContains": {"part": "Path", "value": "/dp/"}},
+												{"Not": {"PartIs": {"part": {"PathSegment": -2}, "value": "dp"}}},
+												{"Any": [
+													{"PartContains": {"part": {"PathSegment": -1}, "where": "Anywhere", "value": "-"}},
+													{"PartMatches" : {"part": {"PathSegment": -1}, "matcher": {"OnlyTheseChars": ["0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "0", "-"]}}}
+												]}
 											]}
+										]},
+										"mapper": {"SetPart": {"part": {"PathSegment": -1}, "value": null}}
+									},
+									{
+										"condition": {"PartContains": {"part": "Path", "where": "Start", "value": "/gp/offer-listing/"}},
+										"mapper": {"All": [
+											{"SetPart": {"part": {"PathSegment": 0}, "value": "dp"}},
+											{"SetPart": {"part": {"PathSegment": 1}, "value": null}},
+											{"SetPart": {"part": {"QueryParam": "aod"}, "value": "1"}}
 										]}
-									]},
-									"mapper": {"SetPart": {"part": {"PathSegment": -1}, "value": null}}
-								},
-								{
-									"condition": {"PartContains": {"part": "Path", "where": "Start", "value": "/gp/offer-listing/"}},
-									"mapper": {"All": [
-										{"SetPart": {"part": {"PathSegment": 0}, "value": "dp"}},
-										{"SetPart": {"part": {"PathSegment": 1}, "value": null}},
-										{"SetPart": {"part": {"QueryParam": "aod"}, "value": "1"}}
-									]}
-								},
-								{
-									"condition": {"PartIs": {"part": {"PathSegment": 1}, "value": "dp"}},
-									"mapper": {"SetPart": {"part": {"PathSegment": 0}, "value": null}}
-								},
-								{
-									"condition": {"PartIs": {"part": {"PathSegment": 3}, "value": "dp"}},
-									"mapper": {"SetPart": {"part": {"PathSegment": 2}, "value": null}}
-								}
-							]},
+									},
+									{
+										"condition": {"PartIs": {"part": {"PathSegment": 1}, "value": "dp"}},
+										"mapper": {"SetPart": {"part": {"PathSegment": 0}, "value": null}}
+									},
+									{
+										"condition": {"PartIs": {"part": {"PathSegment": 3}, "value": "dp"}},
+										"mapper": {"SetPart": {"part": {"PathSegment": 2}, "value": null}}
+									}
+								]
+							}},
 							"bestbuy": {"Mapper": {"RemoveQueryParams": ["icmp"]}},
 							"ebay": {
 								"condition": {"PartIs": {"part": {"PathSegment": 0}, "value": "itm"}},
@@ -1648,7 +1651,10 @@
 								"mapper": "RemoveQuery"
 							},
 							"walmart": {
-								"condition": {"PartIs": {"part": {"PathSegment": 1}, "value": "ip"}},
+								"condition": {"All": [
+									{"PartIs": {"part": {"PathSegment": 1}, "value": "ip"}},
+									{"Not": {"PartIs": {"part": {"PathSegment": 3}, "value": null}}}
+								]},
 								"mapper": {"SetPart": {"part": {"PathSegment": 2}, "value": null}}
 							}
 						}
-- 
2.43.0


From 08005c1c088f5d29f9ae525aded832cbb111238d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:18 +0000
Subject: [PATCH 30/41] fix: remove every trailing h_ segment of a CNN link

---
 default-config.json | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/default-config.json b/default-config.json
index 9b4cd88..3e63b87 100755
--- a/default-config.json
+++ b/default-config.json
@@ -1215,10 +1215,10 @@
 							"cnbc.com": {"RemoveQueryParams": ["par"]},
 							"cnn.com": {"All": [
 								{"RemoveQueryParams": ["bt_ee", "bt_ts"]},
-								{"If": {
+								{"Rule": {"Repeat": {"rules": [{
 									"condition": {"PartContains": {"part": {"PathSegment": -1}, "value": "h_", "where": "Start"}},
 									"mapper": {"SetPart": {"part": {"PathSegment": -1}, "value": null}}
-								}}
+								}]}}}
 							]},
 							"deviantart.com": {"If": {
 								"condition": {"All": [
-- 
2.43.0


From dd5f9870aca8c613e327bb15c9fff5962885a444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:18 +0000
Subject: [PATCH 31/41] fix: clean youtu.be links as the youtube.com links they
 become

---
 default-config.json | 68 +++++++++++++++++++++++----------------------
 1 file changed, 35 insertions(+), 33 deletions(-)

diff --git a/default-config.json b/default-config.json
index 3e63b87..01d94c0 100755
--- a/default-config.json
+++ b/default-config.json
@@ -351,6 +351,39 @@
 				}
 			]},
 
+			"youtube": {"All": [
+				{"RemoveQueryParams": ["si", "feature", "pp", "app"]},
+				{"If": {
+					"condition": {"PartMap": {
+						"part": {"PathSegment": 0},
+						"map": {
+							"shorts": {"FlagIsSet": "youtube-unshort"},
+							"live"  : {"FlagIsSet": "youtube-unlive"},
+							"embed" : {"FlagIsSet": "youtube-unembed"}
+						}
+					}},
+					"mapper": {"All": [
+						{"CopyPart": {"from": {"PathSegment": 1}, "to": {"QueryParam": "v"}}},
+						{"SetPart": {"part": "Path", "value": "watch"}}
+					]}
+				}},
+				{"If": {
+					"condition": {"All": [
+						{"FlagIsSet": "youtube-unplaylist"},
+						{"PartIs": {"part": {"PathSegment": 0}, "value": "watch"}}
+					]},
+					"mapper": {"RemoveQueryParams": ["list"]}
+				}},
+				{"If": {
+					"condition": {"Not": {"FlagIsSet": "youtube-keep-sub-confirmation"}},
+					"mapper": {"RemoveQueryParams": ["sub_confirmation"]}
+				}},
+				{"If": {
+					"condition": {"FlagIsSet": "invidious"},
+					"mapper": {"SetPart": {"part": "Host", "value": {"Var": "invidious-host"}}}
+				}}
+			]},
+
 			"url-from-query-param-or-query": {"FirstNotError": [
 				{"GetUrlFromQueryParam": {"Var": {"type": "Common", "name": "param"}}},
 				{"CopyPart": {"from": "Query", "to": "Whole"}},
@@ -1439,40 +1472,9 @@
 								{"SetHost" : "youtube.com"},
 								{"CopyPart": {"from": {"PathSegment": 0}, "to": {"QueryParam": "v"}}},
 								{"SetPart" : {"part": "Path", "value": "watch"}},
-								{"RemoveQueryParams": ["si", "feature", "pp"]}
+								{"Common": "youtube"}
 							]},
-							"youtube.com": {"All": [
-								{"RemoveQueryParams": ["si", "feature", "pp", "app"]},
-								{"If": {
-									"condition": {"PartMap": {
-										"part": {"PathSegment": 0},
-										"map": {
-											"shorts": {"FlagIsSet": "youtube-unshort"},
-											"live"  : {"FlagIsSet": "youtube-unlive"},
-											"embed" : {"FlagIsSet": "youtube-unembed"}
-										}
-									}},
-									"mapper": {"All": [
-										{"CopyPart": {"from": {"PathSegment": 1}, "to": {"QueryParam": "v"}}},
-										{"SetPart": {"part": "Path", "value": "watch"}}
-									]}
-								}},
-								{"If": {
-									"condition": {"All": [
-										{"FlagIsSet": "youtube-unplaylist"},
-										{"PartIs": {"part": {"PathSegment": 0}, "value": "watch"}}
-									]},
-									"mapper": {"RemoveQueryParams": ["list"]}
-								}},
-								{"If": {
-									"condition": {"Not": {"FlagIsSet": "youtube-keep-sub-confirmation"}},
-									"mapper": {"RemoveQueryParams": ["sub_confirmation"]}
-								}},
-								{"If": {
-									"condition": {"FlagIsSet": "invidious"},
-									"mapper": {"SetPart": {"part": "Host", "value": {"Var": "invidious-host"}}}
-								}}
-							]}
+							"youtube.com": {"Common": "youtube"}
 						}
 					}
 				},
-- 
2.43.0


From 09358f7b2a2f20db87beab431d622fc53a3421a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:18 +0000
Subject: [PATCH 32/41] fix: apply unmobile before looking for redirects, and
 completely

---
 default-config.json | 69 ++++++++++++++++++++++++---------------------
 1 file changed, 37 insertions(+), 32 deletions(-)

diff --git a/default-config.json b/default-config.json
index 01d94c0..076949b 100755
--- a/default-config.json
+++ b/default-config.json
@@ -229,6 +229,35 @@
 		}
 	},
 	"commons": {
+		"rules": {
+			"unmobile": {"SharedCondition": {
+				"condition": {"All": [
+					{"FlagIsSet": "unmobile"},
+					{"TreatErrorAsFail": {"Not": {
+						"PartMatches": {
+							"part": "RegDomain",
+							"matcher": {"InSet": "unmobile-reg-domain-blacklist"}
+						}
+					}}}
+				]},
+				"rules": [{"Repeat": {"rules": [
+					{
+						"condition": {"Any": [
+							{"PartIs": {"part": {"SubdomainSegment": 0}, "value": "m"}},
+							{"PartIs": {"part": {"SubdomainSegment": 0}, "value": "mobile"}}
+						]},
+						"mapper": {"SetPart": {"part": {"SubdomainSegment": 0}, "value": null}}
+					},
+					{
+						"condition": {"Any": [
+							{"PartIs": {"part": {"SubdomainSegment": 1}, "value": "m"}},
+							{"PartIs": {"part": {"SubdomainSegment": 1}, "value": "mobile"}}
+						]},
+						"mapper": {"SetPart": {"part": {"SubdomainSegment": 1}, "value": null}}
+					}
+				]}}]
+			}}
+		},
 		"mappers": {
 			"extract-from-page-no-if": {"All": [
 				{"Common": "universal"},
@@ -415,6 +444,10 @@
 		{"SharedCondition": {
 			"condition": {"PartIsOneOf": {"part": "Scheme", "values": ["http", "https"]}},
 			"rules": [
+				{"Common": "unmobile"},
+
+
+
 				{
 					"condition": {"Any": [
 						{"PartMatches": {
@@ -447,6 +480,10 @@
 					"mapper": {"Rule": {
 						"Repeat": {
 							"rules": [
+								{"Common": "unmobile"},
+
+
+
 								{
 									"PartMap": {
 										"part": "HostWithoutWWWDotPrefixAndFqdnPeriod",
@@ -1045,38 +1082,6 @@
 
 
 
-				{
-					"SharedCondition": {
-						"condition": {"All": [
-							{"FlagIsSet": "unmobile"},
-							{"TreatErrorAsFail": {"Not": {
-								"PartMatches": {
-									"part": "RegDomain",
-									"matcher": {"InSet": "unmobile-reg-domain-blacklist"}
-								}
-							}}}
-						]},
-						"rules": [
-							{
-								"condition": {"Any": [
-									{"PartIs": {"part": {"SubdomainSegment": 0}, "value": "m"}},
-									{"PartIs": {"part": {"SubdomainSegment": 0}, "value": "mobile"}}
-								]},
-								"mapper": {"SetPart": {"part": {"SubdomainSegment": 0}, "value": null}}
-							},
-							{
-								"condition": {"Any": [
-									{"PartIs": {"part": {"SubdomainSegment": 1}, "value": "m"}},
-									{"PartIs": {"part": {"SubdomainSegment": 1}, "value": "mobile"}}
-								]},
-								"mapper": {"SetPart": {"part": {"SubdomainSegment": 1}, "value": null}}
-							}
-						]
-					}
-				},
-
-
-
 				{"StringMap": {
 					"value": {"ParamsNamedPartitioning": {"name": "hwwwwdpafqdnp_categories", "element": {"Part": "HostWithoutWWWDotPrefixAndFqdnPeriod"}}},
 					"map": {
-- 
2.43.0


From 3c73272d0eb5f1249c03d0a850b873833bfd7f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:03 +0000
Subject: [PATCH 33/41] fix: only remove the name from a Walmart product link
 that has one

---
 default-config.json | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/default-config.json b/default-config.json
index 076949b..2614c84 100755
--- a/default-config.json
+++ b/default-config.json
@@ -1660,7 +1660,12 @@
 							"walmart": {
 								"condition": {"All": [
 									{"PartIs": {"part": {"PathSegment": 1}, "value": "ip"}},
-									{"Not": {"PartIs": {"part": {"PathSegment": 3}, "value": null}}}
+									{"Not": {"PartIs": {"part": {"PathSegment": 3}, "value": null}}},
+									{"Not": {"PartIs": {"part": {"PathSegment": 3}, "value": ""}}},
+									{"Any": [
+										{"PartIs": {"part": {"PathSegment": 4}, "value": null}},
+										{"PartIs": {"part": {"PathSegment": 4}, "value": ""}}
+									]}
 								]},
 								"mapper": {"SetPart": {"part": {"PathSegment": 2}, "value": null}}
 							}
-- 
2.43.0


From 312c26ce88ca7ac98268f50d5c6b4a2f6cee03d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:13 +0000
Subject: [PATCH 34/41] fix: write a null JSON source as null, so that it isn't
 read back as the string "Null"

---
 src/glue/json.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/glue/json.rs b/src/glue/json.rs
index a6c5579..d77318d 100644
--- a/src/glue/json.rs
+++ b/src/glue/json.rs
@@ -59,7 +59,11 @@ impl From<String> for StringSourceJsonValue {
 #[allow(clippy::missing_errors_doc, reason = "Who cares?")]
 impl Serialize for StringSourceJsonValue {
     fn serialize<S: serde::ser::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-        <StringSourceJsonValue>::serialize(self, serializer)
+        match self {
+            // As a string, "Null" would be read back as `Self::String`.
+            Self::Null => serializer.serialize_unit(),
+            _ => <StringSourceJsonValue>::serialize(self, serializer)
+        }
     }
 }
 
-- 
2.43.0


From 99506f1dbc47ed8cdc12479255e954e10c4cca9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:13 +0000
Subject: [PATCH 35/41] fix: check the names given to sets, maps and
 partitionings for suitability too

---
 src/util/suitability.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util/suitability.rs b/src/util/suitability.rs
index 08a95cf..c833f82 100644
--- a/src/util/suitability.rs
+++ b/src/util/suitability.rs
@@ -31,11 +31,11 @@ always_suitable!(char, str, String, u8, u16, u32, u64, u128, usize, i8, i16, i32
 #[cfg(feature = "glob")] always_suitable!(glob::Pattern, glob::MatchOptions);
 
 /// Suitability helper function to check that a set is documented.
-pub(crate) fn set_is_documented               (name: &StringSource, config: &Config) {if let StringSource::String(name) = name {assert!(config.docs.sets               .contains_key(name), "Undocumented Set: {name}")}}
+pub(crate) fn set_is_documented               (name: &StringSource, config: &Config) {if let StringSource::String(name) = name {assert!(config.docs.sets               .contains_key(name), "Undocumented Set: {name}")} else {name.assert_suitability(config)}}
 /// Suitability helper function to check that a map is documented.
-pub(crate) fn map_is_documented               (name: &StringSource, config: &Config) {if let StringSource::String(name) = name {assert!(config.docs.maps               .contains_key(name), "Undocumented Map: {name}")}}
+pub(crate) fn map_is_documented               (name: &StringSource, config: &Config) {if let StringSource::String(name) = name {assert!(config.docs.maps               .contains_key(name), "Undocumented Map: {name}")} else {name.assert_suitability(config)}}
 /// Suitability helper function to check that a named partitioning is documented.
-pub(crate) fn named_partitioning_is_documented(name: &StringSource, config: &Config) {if let StringSource::String(name) = name {assert!(config.docs.named_partitionings.contains_key(name), "Undocumented NamedPartitioning: {name}")}}
+pub(crate) fn named_partitioning_is_documented(name: &StringSource, config: &Config) {if let StringSource::String(name) = name {assert!(config.docs.named_partitionings.contains_key(name), "Undocumented NamedPartitioning: {name}")} else {name.assert_suitability(config)}}
 
 impl<K: Suitability, V: Suitability> Suitability for HashMap<K, V> {
     fn assert_suitability(&self, config: &Config) {
-- 
2.43.0


From 68e6a3f8e896565b0c45679ee18eff3f7d430b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:19 +0000
Subject: [PATCH 36/41] fix: refuse JavaScript string literals with unescaped
 line breaks

---
 src/glue/parse/js/string_literal_prefix.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glue/parse/js/string_literal_prefix.rs b/src/glue/parse/js/string_literal_prefix.rs
index d0becc1..aa6af89 100644
--- a/src/glue/parse/js/string_literal_prefix.rs
+++ b/src/glue/parse/js/string_literal_prefix.rs
@@ -154,7 +154,8 @@ pub fn string_literal_prefix(s: &str) -> Result<String, StringLiteralPrefixError
             (StringLiteralPrefixLastState::Unicode43       , '0'..='9' | 'A'..='F' | 'a'..='f') => {last_state = StringLiteralPrefixLastState::Inside          ; scratchspace = scratchspace * 16 + c.to_digit(16).unwrap(); ret.push(char::from_u32(scratchspace).ok_or(StringLiteralPrefixError::InvalidCodepoint(scratchspace))?);},
             (StringLiteralPrefixLastState::Inside          , '"' | '\''                       ) if c == quote => return Ok(ret),
             (StringLiteralPrefixLastState::Start           , _                                ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push(c);},
-            (StringLiteralPrefixLastState::Inside          , _                                ) => {ret.push(c);}
+            // A line has to be continued by escaping its end.
+            (StringLiteralPrefixLastState::Inside          , _                                ) if !matches!(c, '\r' | '\n') => {ret.push(c);}
             _ => Err(StringLiteralPrefixError::SyntaxError {last_state, i, c, scratchspace, quote, partial: ret.clone()})?
         };
     }
-- 
2.43.0


From 70e2014030caef47ddd3ed24ed6921d1caa11443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:37 +0000
Subject: [PATCH 37/41] fix: refuse names given twice in parameters, overrides
 and documentation

---
 src/types/config/docs.rs   | 18 +++++++++---------
 src/types/config/params.rs | 28 ++++++++++++++--------------
 2 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/types/config/docs.rs b/src/types/config/docs.rs
index 7c3ccfb..fef7b77 100755
--- a/src/types/config/docs.rs
+++ b/src/types/config/docs.rs
@@ -21,31 +21,31 @@ pub struct ConfigDocs {
     #[serde(default, skip_serializing_if = "is_default")]
     pub description: Option<Vec<String>>,
     /// The documentation of the flags in [`Params::flags`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub flags: HashMap<String, String>,
     /// The documentation of the cars in [`Params::vars`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub vars: HashMap<String, String>,
     /// The documentation of the environment variables used.
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub environment_vars: HashMap<String, String>,
     /// The documentation of the sets in [`Params::sets`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub sets: HashMap<String, String>,
     /// The documentation of the lists in [`Params::lists`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub lists: HashMap<String, String>,
     /// The documentation of the maps in [`Params::maps`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub maps: HashMap<String, String>,
     /// The documentation of the named partitionings in [`Params::named_partitionings`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub named_partitionings: HashMap<String, String>,
     /// The documentation of the stuff used in [`JobContext`]s.
@@ -61,7 +61,7 @@ pub struct ConfigDocs {
 #[derive(Debug, Clone, Default, PartialEq, Eq, Serialize, Deserialize, Suitability)]
 pub struct JobContextDocs {
     /// Documentation for the vars in [`JobContext::vars`]
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub vars: HashMap<String, String>
 }
@@ -71,7 +71,7 @@ pub struct JobContextDocs {
 #[derive(Debug, Clone, Default, PartialEq, Eq, Serialize, Deserialize, Suitability)]
 pub struct TaskContextDocs {
     /// Documentation for the vars in [`TaskContext::vars`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub vars: HashMap<String, String>
 }
diff --git a/src/types/config/params.rs b/src/types/config/params.rs
index b373a6f..1adda9b 100644
--- a/src/types/config/params.rs
+++ b/src/types/config/params.rs
@@ -4,7 +4,7 @@ use std::collections::{HashMap, HashSet};
 
 use serde::{Serialize, Deserialize};
 use thiserror::Error;
-use serde_with::serde_as;
+use serde_with::{serde_as, MapPreventDuplicates, SetPreventDuplicates};
 
 use crate::types::*;
 use crate::glue::*;
@@ -19,25 +19,25 @@ pub struct Params {
     /// Flags allow enabling and disabling certain behavior.
     ///
     /// Defaults to an empty [`HashSet`].
-    #[serde_with = "SetPreventDuplicates<_>"]
+    #[serde_as(as = "SetPreventDuplicates<_>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub flags: HashSet<String>,
     /// Vars allow setting strings used for certain behaviors.
     ///
     /// Defaults to an empty [`HashMap`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub vars: HashMap<String, String>,
     /// Sets allow quickly checking if a string is in a certain genre of possible values.
     ///
     /// Defaults to an empty [`HashMap`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub sets: HashMap<String, HashSet<String>>,
     /// Lists are a niche thing that lets you iterate over a set of values in a known order.
     ///
     /// Defaults to an empty [`HashMap`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub lists: HashMap<String, Vec<String>>,
     /// Maps allow mapping input values to output values.
@@ -45,7 +45,7 @@ pub struct Params {
     /// Please note that [`Map`]s make this more powerful than a normal [`HashMap`], notably including a default value.
     ///
     /// Defaults to an empty [`HashMap`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub maps: HashMap<String, Map<String>>,
     /// Named partitionings effectively let you check which if several sets a value is in.
@@ -53,7 +53,7 @@ pub struct Params {
     /// See [this Wikipedia article](https://en.wikipedia.org/wiki/Partition_of_a_set) for the math end of this idea.
     ///
     /// Defaults to an empty [`HashMap`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub named_partitionings: HashMap<String, NamedPartitioning>,
     /// If [`true`], things that interact with the cache will read from the cache.
@@ -103,26 +103,26 @@ impl Default for Params {
 #[derive(Debug, Clone, Default, Deserialize, Serialize, PartialEq, Eq)]
 pub struct ParamsDiff {
     /// [`Params::flags`] to set.
-    #[serde_with = "SetPreventDuplicates<_>"]
+    #[serde_as(as = "SetPreventDuplicates<_>")]
     #[serde(default, skip_serializing_if = "is_default")] pub flags  : HashSet<String>,
     /// [`Params::flags`] to unset.
-    #[serde_with = "SetPreventDuplicates<_>"]
+    #[serde_as(as = "SetPreventDuplicates<_>")]
     #[serde(default, skip_serializing_if = "is_default")] pub unflags: HashSet<String>,
     /// [`Params::vars`] to set.
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")] pub vars  : HashMap<String, String>,
     /// [`Params::vars`] to unset.
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "SetPreventDuplicates<_>")]
     #[serde(default, skip_serializing_if = "is_default")] pub unvars: HashSet<String>,
     /// [`Params::sets`] to init.
     ///
     /// Shouldn't ever actually change anything, but if you're really fussy or something.
     #[serde(default, skip_serializing_if = "is_default")] pub init_sets: Vec<String>,
     /// [`Params::sets`] and values to insert into them.
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")] pub insert_into_sets: HashMap<String, Vec<String>>,
     /// [`Params::sets`] and values to remove from them.
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")] pub remove_from_sets: HashMap<String, Vec<String>>,
     /// [`Params::sets`] to delete.
     #[serde(default, skip_serializing_if = "is_default")] pub delete_sets: Vec<String>,
@@ -131,7 +131,7 @@ pub struct ParamsDiff {
     /// Shouldn't ever actually change anything, but if you're really fussy or something.
     #[serde(default, skip_serializing_if = "is_default")] pub init_maps: Vec<String>,
     /// [`MapDiff`]s to apply to [`Params::maps`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")] pub map_diffs: HashMap<String, MapDiff<String>>,
     /// [`Params::maps`] to delete.
     #[serde(default, skip_serializing_if = "is_default")] pub delete_maps: Vec<String>,
-- 
2.43.0


From f37cfd8b4da796f71cc8926a71685da4a839931c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:37 +0000
Subject: [PATCH 38/41] fix: the library's debug output no longer panics unless
 the CLI set it up

---
 src/util/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/macros.rs b/src/util/macros.rs
index 59f50c7..ee551f8 100755
--- a/src/util/macros.rs
+++ b/src/util/macros.rs
@@ -32,7 +32,7 @@ macro_rules! debug {
                 None => eprint!("        ")
             }
             let mut indent = crate::util::DEBUG_INDENT.lock().expect("The DEBUG_INDENT mutex to never be poisoned.");
-            if !*crate::util::DEBUG_JUST_PRINT_TIMES.get().expect("The DEBUG_JUST_PRINT_TIMES OnceLock to be set.") {
+            if !crate::util::DEBUG_JUST_PRINT_TIMES.get().copied().unwrap_or_default() {
                 eprint!("\t{}{}", "|   ".repeat(*indent), stringify!($func));
                 $(eprint!($comment);)?
                 $(eprint!(concat!("; ", stringify!($name), ": {:?}"), $name);)*
-- 
2.43.0


From a4e8f5cf684b3a7c87f370ca01cc9a25eca5c234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:44 +0000
Subject: [PATCH 39/41] fix: let the default config's mfy.gg rule apply to
 mfy.gg links

The rule replacing mfy.gg with metafy.gg stands in the redirect section, but
mfy.gg was missing from the list of hosts that get there.
---
 default-config.json | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/default-config.json b/default-config.json
index 2614c84..85be474 100755
--- a/default-config.json
+++ b/default-config.json
@@ -460,7 +460,7 @@
 									"bugzil.la", "buymeacoff.ee", "buymeacoffee.com", "cach.me", "carleton.ca", "cash.app", "click.notification.elsevier.com",
 									"deviantart.com", "duckduckgo.com", "duckduckgo.com", "duckduckgogg42xjoc72x3sjasowoarfbgcmvfimaftt6twagswzczad.onion",
 									"e.emailalerts.cnn.com", "facebook.com", "goodreads.com", "google.com", "gprivate.com", "href.li", "instagr.am", "instagram.com",
-									"l.instagram.com", "l.threads.com", "lmddgtfy.net", "lmgtfy2.com", "lnk.bio", "m.vk.com", "old.reddit.com", "open.substack.com",
+									"l.instagram.com", "l.threads.com", "lmddgtfy.net", "lmgtfy2.com", "lnk.bio", "m.vk.com", "mfy.gg", "old.reddit.com", "open.substack.com",
 									"out.reddit.com", "pawoo.net", "pixiv.net", "preview.tinyurl.com", "proxy.notsobot.com", "rd.goodreads.com", "reddit.com", "reurl.cc",
 									"shareasale-analytics.com", "shareasale.com", "sketchfab.com", "sketchfab.com", "skfb.ly", "smarturl.it", "ss3.shipstation.com",
 									"steamcommunity.com", "subscribestar.adult", "substack.com", "t.umblr.com", "tee.pub", "teepublic.com", "tinyurl.com", "toyhou.se",
-- 
2.43.0


From 314f2930d55fd5c52ed475e2ec285d3ce22db65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:44 +0000
Subject: [PATCH 40/41] fix: encode the search text of lmgtfy2.com links in the
 default config

The decoded text was appended as is, so a & or # in it ended the search text.
---
 default-config.json | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/default-config.json b/default-config.json
index 85be474..cd9bffc 100755
--- a/default-config.json
+++ b/default-config.json
@@ -646,7 +646,7 @@
 																	"s": "https://snopes.com/search/?q="
 																}
 															}},
-															"modification": {"Append": {"Part": {"QueryParam": "q"}}}
+															"modification": {"Append": {"Modified": {"value": {"Part": {"QueryParam": "q"}}, "modification": "UrlEncode"}}}
 														}}
 													}
 												}
-- 
2.43.0


From 7e8205d6dda29907a9bd2e38472a785c9ea2364d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:44 +0000
Subject: [PATCH 41/41] fix: use the documented bluesky-embed-host variable in
 the default config

The variable was documented and given a default, but the rule used a literal.
---
 default-config.json | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/default-config.json b/default-config.json
index cd9bffc..f496e93 100755
--- a/default-config.json
+++ b/default-config.json
@@ -1524,7 +1524,7 @@
 								}},
 								{
 									"condition": {"FlagIsSet": "embed-compatibility"},
-									"mapper": {"SetPart": {"part": "RegDomain", "value": "fxbsky.app"}}
+									"mapper": {"SetPart": {"part": "Host", "value": {"Var": "bluesky-embed-host"}}}
 								}
 							]},
 							"danbooru.donmai.us": {"If": {
-- 
2.43.0

