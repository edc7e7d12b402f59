From 19d65f489f23ff8aecd934d50494305df71c6752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:54 +0000
Subject: [PATCH 01/35] fix: keep every path segment when setting segments
 relative to one

Joining the segments without the leading slash dropped an empty first
segment (//a) and refused to produce the empty path.
---
 src/types/url_part.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/types/url_part.rs b/src/types/url_part.rs
index 8ca41af..20defe7 100755
--- a/src/types/url_part.rs
+++ b/src/types/url_part.rs
@@ -1134,9 +1134,9 @@ impl UrlPart {
 
             (Self::Path, Some(to)) => url.set_path(to),
             (Self::Path, None    ) => Err(UrlPartSetError::PathCannotBeNone)?,
-            (Self::BeforePathSegment(n), _) => Self::Path.set(url, Some(&*set_rel_segment(url.path_segments()?, *n, SegRel::Before, to)?.join("/")).filter(|x| !x.is_empty()))?,
-            (Self::PathSegment      (n), _) => Self::Path.set(url, Some(&*set_rel_segment(url.path_segments()?, *n, SegRel::At    , to)?.join("/")).filter(|x| !x.is_empty()))?,
-            (Self::AfterPathSegment (n), _) => Self::Path.set(url, Some(&*set_rel_segment(url.path_segments()?, *n, SegRel::After , to)?.join("/")).filter(|x| !x.is_empty()))?,
+            (Self::BeforePathSegment(n), _) => url.set_path(&format!("/{}", set_rel_segment(url.path_segments()?, *n, SegRel::Before, to)?.join("/"))),
+            (Self::PathSegment      (n), _) => url.set_path(&format!("/{}", set_rel_segment(url.path_segments()?, *n, SegRel::At    , to)?.join("/"))),
+            (Self::AfterPathSegment (n), _) => url.set_path(&format!("/{}", set_rel_segment(url.path_segments()?, *n, SegRel::After , to)?.join("/"))),
             (Self::NextPathSegment     , _) => if let Some(to) = to {url.path_segments_mut()?.pop_if_empty().push(to);},
 
 
-- 
2.43.0


From 7f4025ea0e195aafbf2b4a84759b085400cee789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:10 +0000
Subject: [PATCH 02/35] fix: keep the host and its details in step when
 removing the host of a non-special URL

---
 src/types/better_url.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/types/better_url.rs b/src/types/better_url.rs
index 6c3224a..a5a8b50 100644
--- a/src/types/better_url.rs
+++ b/src/types/better_url.rs
@@ -350,7 +350,20 @@ impl BetterUrl {
     /// Sets the [`UrlPart::Host`].
     /// # Errors
     /// If the call to [`Url::set_host`] returns an error, the error is returned..
-    pub fn set_host         (&mut self, host    : Option<&str>) -> Result<(), SetHostError>     {self.url.set_host(host)?; self.host_details = self.url.host().map(|host| HostDetails::from_host(&host)); Ok(())}
+    pub fn set_host         (&mut self, host    : Option<&str>) -> Result<(), SetHostError>     {
+        if host.is_none() && self.url.has_host() && !self.url.is_special() {
+            // [`Url::set_host`] removes the host from the URL's text but still reports an (empty) host afterwards.
+            // A path starting with `//` can't be kept without a host as it'd become the host.
+            if self.url.path().starts_with("//") {Err(ParseError::EmptyHost)?;}
+            let mut new = self.url.clone();
+            new.set_host(None)?;
+            self.url = Url::parse(new.as_str())?;
+        } else {
+            self.url.set_host(host)?;
+        }
+        self.host_details = self.url.host().map(|host| HostDetails::from_host(&host));
+        Ok(())
+    }
     /// Sets the [`UrlPart::Host`].
     /// # Errors
     /// If the call to [`Url::set_ip_host`] returns an error, returns the error [`SetIpHostError`].
-- 
2.43.0


From 1b02faec153e212b8cf7de1e252db9ca571493ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:10 +0000
Subject: [PATCH 03/35] fix: recompute a URL's host details from the host that
 was stored

---
 src/types/better_url.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/types/better_url.rs b/src/types/better_url.rs
index a5a8b50..deb9ec5 100644
--- a/src/types/better_url.rs
+++ b/src/types/better_url.rs
@@ -391,9 +391,10 @@ impl BetterUrl {
     ///
     /// If the call to [`HostDetails::from_host_str`] doesn't return a [`HostDetails::Domain`], returns the error [`SetDomainHostError::ProvidedHostIsNotADomain`].
     pub fn set_domain_host(&mut self, domain: &str) -> Result<(), SetDomainHostError> {
-        if let Ok(host_details @ HostDetails::Domain(_)) = HostDetails::from_host_str(domain) {
+        if let Ok(HostDetails::Domain(_)) = HostDetails::from_host_str(domain) {
             self.url.set_host(Some(domain))?;
-            self.host_details = Some(host_details);
+            // For URLs without a special scheme the stored host isn't always the normalized `domain`.
+            self.host_details = self.url.host().map(|host| HostDetails::from_host(&host));
         } else {
             Err(SetDomainHostError::ProvidedHostIsNotADomain)?;
         }
-- 
2.43.0


From b3d5520aa619a1b612928a0f42d8619d97403150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:10 +0000
Subject: [PATCH 04/35] fix: return an error instead of panicking when a host
 can't lose its FQDN period

---
 src/types/better_url.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/types/better_url.rs b/src/types/better_url.rs
index deb9ec5..900b563 100644
--- a/src/types/better_url.rs
+++ b/src/types/better_url.rs
@@ -140,7 +140,10 @@ pub enum SetFqdnPeriodError {
     NoHost,
     /// Returned when the URL's host isn't a domain.
     #[error("The URL's host wasn't a domain.")]
-    HostIsNotADomain
+    HostIsNotADomain,
+    /// Returned when the call to [`BetterUrl::set_host`] returns an error.
+    #[error(transparent)]
+    SetHostError(#[from] SetHostError)
 }
 
 /// The enum of errors [`BetterUrl::set_domain_host`] can return.
@@ -567,6 +570,8 @@ impl BetterUrl {
     /// If `self` doesn't have a host, returns the error [`SetFqdnPeriodError::NoHost`].
     ///
     /// If the host isn't a domain, returns the error [`SetFqdnPeriodError::HostIsNotADomain`].
+    ///
+    /// If the host with/without the period isn't valid, returns the error [`SetFqdnPeriodError::SetHostError`].
     /// # Examples
     /// ```
     /// use url_cleaner::types::*;
@@ -588,9 +593,9 @@ impl BetterUrl {
     pub fn set_fqdn(&mut self, to: bool) -> Result<(), SetFqdnPeriodError> {
         match (self.host_details(), to) {
             (Some(HostDetails::Domain(DomainDetails {fqdn_period: None   , ..})), false) => {},
-            (Some(HostDetails::Domain(DomainDetails {fqdn_period: None   , ..})), true ) => {self.set_host(Some(&format!("{}.", self.host_str().expect("The URL having a DomainDetails means it has a host.")))).expect("Adding a FQDN period to keep the host valid.")},
+            (Some(HostDetails::Domain(DomainDetails {fqdn_period: None   , ..})), true ) => {self.set_host(Some(&format!("{}.", self.host_str().expect("The URL having a DomainDetails means it has a host."))))?},
             #[expect(clippy::unnecessary_to_owned, reason = "It is necessary.")]
-            (Some(HostDetails::Domain(DomainDetails {fqdn_period: Some(_), ..})), false) => {self.set_host(Some(&self.host_str().expect("The URL having a DomainDetails means it has a host.").strip_suffix('.').expect("The URL's DomainDetails::fqdn_period being Some means the host ends with a period.").to_string())).expect("Removing a FQDN period to keep the host valid.")},
+            (Some(HostDetails::Domain(DomainDetails {fqdn_period: Some(_), ..})), false) => {self.set_host(Some(&self.host_str().expect("The URL having a DomainDetails means it has a host.").strip_suffix('.').expect("The URL's DomainDetails::fqdn_period being Some means the host ends with a period.").to_string()))?},
             (Some(HostDetails::Domain(DomainDetails {fqdn_period: Some(_), ..})), true ) => {},
             (Some(_), _) => Err(SetFqdnPeriodError::HostIsNotADomain)?,
             (None, _) => Err(SetFqdnPeriodError::NoHost)?
-- 
2.43.0


From 63b27bd3f526d6e1f027fcb04c05e6c4ca7a2d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:31 +0000
Subject: [PATCH 05/35] fix: CharMatcher::IsDigitRadix returns an error instead
 of panicking on radixes 0 and 1

---
 src/types/char_matcher.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types/char_matcher.rs b/src/types/char_matcher.rs
index 83369d2..213984d 100644
--- a/src/types/char_matcher.rs
+++ b/src/types/char_matcher.rs
@@ -72,7 +72,7 @@ pub enum CharMatcher {
     IsDigit,
     /// [`char::is_digit`].
     /// # Errors
-    /// If the radix is greater than 36, returns the error [`CharMatcherError::InvalidRadix`].
+    /// If the radix is less than 2 or greater than 36, returns the error [`CharMatcherError::InvalidRadix`].
     IsDigitRadix(u32),
     /// [`char::is_lowercase`].
     IsLowercase,
@@ -169,7 +169,7 @@ impl CharMatcher {
             Self::IsAsciiWhitespace   => c.is_ascii_whitespace(),
             Self::IsControl           => c.is_control(),
             Self::IsDigit             => c.is_ascii_digit(),
-            Self::IsDigitRadix(radix) => if *radix <= 36 {c.is_digit(*radix)} else {Err(CharMatcherError::InvalidRadix(*radix))?},
+            Self::IsDigitRadix(radix) => if (2..=36).contains(radix) {c.is_digit(*radix)} else {Err(CharMatcherError::InvalidRadix(*radix))?},
             Self::IsLowercase         => c.is_lowercase(),
             Self::IsNumeric           => c.is_numeric(),
             Self::IsUppercase         => c.is_uppercase(),
-- 
2.43.0


From 50cb8d276807d90b0a2ae425f4f8d94f7e15d7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:31 +0000
Subject: [PATCH 06/35] fix: globs written as a string are case sensitive, as
 documented and like the struct form

---
 src/glue/glob.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/glue/glob.rs b/src/glue/glob.rs
index a54c4b6..54b6f94 100644
--- a/src/glue/glob.rs
+++ b/src/glue/glob.rs
@@ -47,7 +47,11 @@ impl From<Pattern> for GlobWrapper {
     fn from(value: Pattern) -> Self {
         Self {
             pattern: value,
-            options: Default::default()
+            options: MatchOptions {
+                case_sensitive: true,
+                require_literal_separator: false,
+                require_literal_leading_dot: true
+            }
         }
     }
 }
-- 
2.43.0


From be8666240697f19790a664b718c322247ab74171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:31 +0000
Subject: [PATCH 07/35] fix: HttpClientConfigDiff::referer overwrites referer
 and not no_proxy

---
 src/glue/http_client_config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glue/http_client_config.rs b/src/glue/http_client_config.rs
index f5b0982..6018f40 100644
--- a/src/glue/http_client_config.rs
+++ b/src/glue/http_client_config.rs
@@ -146,7 +146,7 @@ impl HttpClientConfigDiff {
         if let Some(set_proxies) = &self.set_proxies {to.proxies.clone_from(set_proxies);}
         to.proxies.extend(self.add_proxies.clone());
         if let Some(no_proxy) = self.no_proxy {to.no_proxy = no_proxy;}
-        if let Some(referer) = self.referer {to.no_proxy = referer;}
+        if let Some(referer) = self.referer {to.referer = referer;}
         to.extra_certificates.extend(self.add_extra_certificates.clone());
         to.extra_certificates.retain(|extra_certificate| !self.remove_extra_certificates.contains(extra_certificate));
     }
-- 
2.43.0


From efcf1091ad4673ad0b2b22bf5dfbbeb8ad48ffca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:38 +0000
Subject: [PATCH 08/35] fix: describe the radixes CharMatcher::IsDigitRadix
 accepts

---
 src/types/char_matcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/char_matcher.rs b/src/types/char_matcher.rs
index 213984d..18f64f6 100644
--- a/src/types/char_matcher.rs
+++ b/src/types/char_matcher.rs
@@ -85,7 +85,7 @@ pub enum CharMatcher {
 }
 #[derive(Debug, Error)]
 pub enum CharMatcherError {
-    #[error("Invalid radix: {0}. Radix must be between 0 and 36 inclusive. See [`char::is_digit`] for details.")]
+    #[error("Invalid radix: {0}. Radix must be between 2 and 36 inclusive. See [`char::is_digit`] for details.")]
     InvalidRadix(u32),
     #[error("CharMatcher::Error was used.")]
     ExplicitError,
-- 
2.43.0


From d89e1c5a9293901876a15dd4e572e1ebea1fdeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:25 +0000
Subject: [PATCH 09/35] fix: get_attribute_value slices its input by byte
 indices

---
 src/glue/parse/html/get_attribute.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glue/parse/html/get_attribute.rs b/src/glue/parse/html/get_attribute.rs
index 96b4eb1..db117d8 100644
--- a/src/glue/parse/html/get_attribute.rs
+++ b/src/glue/parse/html/get_attribute.rs
@@ -176,7 +176,7 @@ pub fn get_attribute_value<'a>(input: &'a str, name: &'a str) -> Result<Option<O
         attr_value_start: 0
     };
 
-    for (i, c) in input.chars().enumerate() {
+    for (i, c) in input.char_indices() {
         if let Err(e) = munch(&mut state, i, c) {
             return Err(GAVError::Syntax {
                 index: i,
-- 
2.43.0


From f5f1c5b5d3cc2ca8388c501841a3997b48d79a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:25 +0000
Subject: [PATCH 10/35] fix: get_attribute_value finds attributes after and
 without values

---
 src/glue/parse/html/get_attribute.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/glue/parse/html/get_attribute.rs b/src/glue/parse/html/get_attribute.rs
index db117d8..3d6a9b5 100644
--- a/src/glue/parse/html/get_attribute.rs
+++ b/src/glue/parse/html/get_attribute.rs
@@ -225,8 +225,7 @@ fn munch(state: &mut GAVState, i: usize, c: char) -> Result<(), GAVSyntaxErrorKi
         (LB::BeforeAttributeName, _                       ) => {state.last_bite = LB::AttributeName; state.attr_name_start = i; munch(state, i, c)?;},
 
 
-        (LB::AttributeName, '\t' | '\r' | '\n' | ' ' | '/') => {state.last_bite = LB::AfterAttributeName  ; state.attr_name_end = i; munch(state, i, c)?;},
-        (LB::AttributeName, '>'                           ) => {state.last_bite = LB::AfterAttributeName  ; state.attr_name_end = i; if &state.input[state.attr_name_start..state.attr_name_end] == state.name {state.ret = Some(None);} else {state.ret = None;} munch(state, i, c)?;},
+        (LB::AttributeName, '\t' | '\r' | '\n' | ' ' | '/' | '>') => {state.last_bite = LB::AfterAttributeName  ; state.attr_name_end = i; if &state.input[state.attr_name_start..state.attr_name_end] == state.name {state.ret = Some(None);} munch(state, i, c)?;},
         (LB::AttributeName, '='                           ) => {state.last_bite = LB::BeforeAttributeValue; state.attr_name_end = i;},
         (LB::AttributeName, '\0' | '"' | '\'' | '<'       ) => Err(EK::UnexpectedCharacterInAttributeName)?,
         (LB::AttributeName, _                             ) => {},
@@ -235,8 +234,8 @@ fn munch(state: &mut GAVState, i: usize, c: char) -> Result<(), GAVSyntaxErrorKi
         (LB::AfterAttributeName, '\t' | '\r' | '\n' | ' ') => {},
         (LB::AfterAttributeName, '/'                     ) => {state.last_bite = LB::SelfClosingStartTag ;},
         (LB::AfterAttributeName, '='                     ) => {state.last_bite = LB::BeforeAttributeValue;},
-        (LB::AfterAttributeName, '>'                     ) => {state.last_bite = LB::Done; if &state.input[state.attr_name_start..i] == state.name {state.ret = Some(None);}},
-        (LB::AfterAttributeName, _                       ) => {state.last_bite = LB::AttributeName       ; munch(state, i, c)?;},
+        (LB::AfterAttributeName, '>'                     ) => {state.last_bite = LB::Done;},
+        (LB::AfterAttributeName, _                       ) => {state.last_bite = LB::AttributeName; state.attr_name_start = i; munch(state, i, c)?;},
 
 
         (LB::BeforeAttributeValue, '\t' | '\r' | '\n' | ' ') => {},
-- 
2.43.0


From fc06b8776bc650d8c17c688b6bde46e110ad78df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:25 +0000
Subject: [PATCH 11/35] fix: get_attribute_value compares attribute names
 case-insensitively like HTML does

---
 src/glue/parse/html/get_attribute.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/glue/parse/html/get_attribute.rs b/src/glue/parse/html/get_attribute.rs
index 3d6a9b5..c09c479 100644
--- a/src/glue/parse/html/get_attribute.rs
+++ b/src/glue/parse/html/get_attribute.rs
@@ -225,7 +225,7 @@ fn munch(state: &mut GAVState, i: usize, c: char) -> Result<(), GAVSyntaxErrorKi
         (LB::BeforeAttributeName, _                       ) => {state.last_bite = LB::AttributeName; state.attr_name_start = i; munch(state, i, c)?;},
 
 
-        (LB::AttributeName, '\t' | '\r' | '\n' | ' ' | '/' | '>') => {state.last_bite = LB::AfterAttributeName  ; state.attr_name_end = i; if &state.input[state.attr_name_start..state.attr_name_end] == state.name {state.ret = Some(None);} munch(state, i, c)?;},
+        (LB::AttributeName, '\t' | '\r' | '\n' | ' ' | '/' | '>') => {state.last_bite = LB::AfterAttributeName  ; state.attr_name_end = i; if state.input[state.attr_name_start..state.attr_name_end].eq_ignore_ascii_case(state.name) {state.ret = Some(None);} munch(state, i, c)?;},
         (LB::AttributeName, '='                           ) => {state.last_bite = LB::BeforeAttributeValue; state.attr_name_end = i;},
         (LB::AttributeName, '\0' | '"' | '\'' | '<'       ) => Err(EK::UnexpectedCharacterInAttributeName)?,
         (LB::AttributeName, _                             ) => {},
@@ -247,21 +247,21 @@ fn munch(state: &mut GAVState, i: usize, c: char) -> Result<(), GAVSyntaxErrorKi
         (LB::BeforeAttributeValue, _                       ) => {state.last_bite = LB::AttributeValueUnquoted; state.attr_value_start = i; munch(state, i, c)?;},
 
 
-        (LB::AttributeValueDoubleQuoted, '"' ) => {state.last_bite = LB::AfterAttributeValueQuoted; if &state.input[state.attr_name_start..state.attr_name_end] == state.name {state.ret = Some(Some(&state.input[state.attr_value_start..i]));}},
+        (LB::AttributeValueDoubleQuoted, '"' ) => {state.last_bite = LB::AfterAttributeValueQuoted; if state.input[state.attr_name_start..state.attr_name_end].eq_ignore_ascii_case(state.name) {state.ret = Some(Some(&state.input[state.attr_value_start..i]));}},
         (LB::AttributeValueDoubleQuoted, '&' ) => {}, // Processed later.
         (LB::AttributeValueDoubleQuoted, '\0') => Err(EK::UnexpectedNullCharacter)?,
         (LB::AttributeValueDoubleQuoted, _   ) => {},
 
 
-        (LB::AttributeValueSingleQuoted, '\'') => {state.last_bite = LB::AfterAttributeValueQuoted; if &state.input[state.attr_name_start..state.attr_name_end] == state.name {state.ret = Some(Some(&state.input[state.attr_value_start..i]));}},
+        (LB::AttributeValueSingleQuoted, '\'') => {state.last_bite = LB::AfterAttributeValueQuoted; if state.input[state.attr_name_start..state.attr_name_end].eq_ignore_ascii_case(state.name) {state.ret = Some(Some(&state.input[state.attr_value_start..i]));}},
         (LB::AttributeValueSingleQuoted, '&' ) => {}, // Processed later.
         (LB::AttributeValueSingleQuoted, '\0') => Err(EK::UnexpectedNullCharacter)?,
         (LB::AttributeValueSingleQuoted, _   ) => {},
 
 
-        (LB::AttributeValueUnquoted, '\t' | '\r' | '\n' | ' ') => {state.last_bite = LB::BeforeAttributeName; if &state.input[state.attr_name_start..state.attr_name_end] == state.name {state.ret = Some(Some(&state.input[state.attr_value_start..i]));}},
+        (LB::AttributeValueUnquoted, '\t' | '\r' | '\n' | ' ') => {state.last_bite = LB::BeforeAttributeName; if state.input[state.attr_name_start..state.attr_name_end].eq_ignore_ascii_case(state.name) {state.ret = Some(Some(&state.input[state.attr_value_start..i]));}},
         (LB::AttributeValueUnquoted, '&'                     ) => {}, // Processed later.
-        (LB::AttributeValueUnquoted, '>'                     ) => {state.last_bite = LB::Done; if &state.input[state.attr_name_start..state.attr_name_end] == state.name {state.ret = Some(Some(&state.input[state.attr_value_start..i]));}},
+        (LB::AttributeValueUnquoted, '>'                     ) => {state.last_bite = LB::Done; if state.input[state.attr_name_start..state.attr_name_end].eq_ignore_ascii_case(state.name) {state.ret = Some(Some(&state.input[state.attr_value_start..i]));}},
         (LB::AttributeValueUnquoted, '\0'                    ) => Err(EK::UnexpectedNullCharacter)?,
         (LB::AttributeValueUnquoted, _                       ) => {},
 
-- 
2.43.0


From 4a45ca453d9243d9c291a1a6285ad56ce417c3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:25 +0000
Subject: [PATCH 12/35] fix: the javascript form feed escape is \f

---
 src/glue/parse/js/string_literal_prefix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glue/parse/js/string_literal_prefix.rs b/src/glue/parse/js/string_literal_prefix.rs
index 912a8cb..53bbacf 100644
--- a/src/glue/parse/js/string_literal_prefix.rs
+++ b/src/glue/parse/js/string_literal_prefix.rs
@@ -103,7 +103,7 @@ pub fn string_literal_prefix(s: &str) -> Result<String, StringLiteralPrefixError
             (StringLiteralPrefixLastState::Inside          , '\\'                             ) => {last_state = StringLiteralPrefixLastState::Start           ;},
             (StringLiteralPrefixLastState::Start           , '0'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\0');},
             (StringLiteralPrefixLastState::Start           , 'b'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\u{0008}');},
-            (StringLiteralPrefixLastState::Start           , 'g'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\u{000c}');},
+            (StringLiteralPrefixLastState::Start           , 'f'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\u{000c}');},
             (StringLiteralPrefixLastState::Start           , 'n'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\n');},
             (StringLiteralPrefixLastState::Start           , '\n'                             ) => {last_state = StringLiteralPrefixLastState::Inside          ;},
             (StringLiteralPrefixLastState::Start           , 'r'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\r');},
-- 
2.43.0


From 689cd0eddf6c1265a540aa08e6333eaae22dcac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:25 +0000
Subject: [PATCH 13/35] fix: accept javascript \x8H and \x9H escapes

---
 src/glue/parse/js/string_literal_prefix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glue/parse/js/string_literal_prefix.rs b/src/glue/parse/js/string_literal_prefix.rs
index 53bbacf..cebc29d 100644
--- a/src/glue/parse/js/string_literal_prefix.rs
+++ b/src/glue/parse/js/string_literal_prefix.rs
@@ -116,7 +116,7 @@ pub fn string_literal_prefix(s: &str) -> Result<String, StringLiteralPrefixError
             (StringLiteralPrefixLastState::Octal1          , '0'..='7'                        ) => {last_state = StringLiteralPrefixLastState::Octal2          ; scratchspace = scratchspace *  8 + c.to_digit( 8).unwrap();},
             (StringLiteralPrefixLastState::Octal2          , '0'..='7'                        ) => {last_state = StringLiteralPrefixLastState::Inside          ; scratchspace = scratchspace *  8 + c.to_digit( 8).unwrap(); ret.push(char::from_u32(scratchspace).ok_or(StringLiteralPrefixError::InvalidCodepoint(scratchspace))?);},
             (StringLiteralPrefixLastState::Start           , 'x'                              ) => {last_state = StringLiteralPrefixLastState::AsciiHexx       ;},
-            (StringLiteralPrefixLastState::AsciiHexx       , '0'..='7' | 'A'..='F' | 'a'..='f') => {last_state = StringLiteralPrefixLastState::AsciiHex1       ; scratchspace =                     c.to_digit(16).unwrap();},
+            (StringLiteralPrefixLastState::AsciiHexx       , '0'..='9' | 'A'..='F' | 'a'..='f') => {last_state = StringLiteralPrefixLastState::AsciiHex1       ; scratchspace =                     c.to_digit(16).unwrap();},
             (StringLiteralPrefixLastState::AsciiHex1       , '0'..='9' | 'A'..='F' | 'a'..='f') => {last_state = StringLiteralPrefixLastState::Inside          ; scratchspace = scratchspace * 16 + c.to_digit(16).unwrap(); ret.push(char::from_u32(scratchspace).ok_or(StringLiteralPrefixError::InvalidCodepoint(scratchspace))?);},
             (StringLiteralPrefixLastState::Start           , 'u'                              ) => {last_state = StringLiteralPrefixLastState::UnicodeU        ;},
             (StringLiteralPrefixLastState::UnicodeU        , '{'                              ) => {last_state = StringLiteralPrefixLastState::UnicodeLeftBrace;},
-- 
2.43.0


From 9d6948cf753f0227516a943df12dd34bfdf8cd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:25 +0000
Subject: [PATCH 14/35] fix: javascript octal escapes can have one, two, or
 three digits

---
 src/glue/parse/js/string_literal_prefix.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/glue/parse/js/string_literal_prefix.rs b/src/glue/parse/js/string_literal_prefix.rs
index cebc29d..8ebb4a5 100644
--- a/src/glue/parse/js/string_literal_prefix.rs
+++ b/src/glue/parse/js/string_literal_prefix.rs
@@ -97,11 +97,21 @@ pub fn string_literal_prefix(s: &str) -> Result<String, StringLiteralPrefixError
     let mut quote = '"';
 
     for (i, c) in s.chars().enumerate() {
+        // Octal escape sequences can end early.
+        if match (last_state, c) {
+            (StringLiteralPrefixLastState::Octal1, '0'..='7') => false,
+            (StringLiteralPrefixLastState::Octal2, '0'..='7') => scratchspace >= 0o40,
+            (StringLiteralPrefixLastState::Octal1 | StringLiteralPrefixLastState::Octal2, _) => true,
+            _ => false
+        } {
+            last_state = StringLiteralPrefixLastState::Inside;
+            ret.push(char::from_u32(scratchspace).ok_or(StringLiteralPrefixError::InvalidCodepoint(scratchspace))?);
+        }
+
         #[allow(clippy::arithmetic_side_effects, reason = "Shouldn't ever happen.")]
         match (last_state, c) {
             (StringLiteralPrefixLastState::Outside         , '"' | '\''                       ) => {last_state = StringLiteralPrefixLastState::Inside          ; quote = c;},
             (StringLiteralPrefixLastState::Inside          , '\\'                             ) => {last_state = StringLiteralPrefixLastState::Start           ;},
-            (StringLiteralPrefixLastState::Start           , '0'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\0');},
             (StringLiteralPrefixLastState::Start           , 'b'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\u{0008}');},
             (StringLiteralPrefixLastState::Start           , 'f'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\u{000c}');},
             (StringLiteralPrefixLastState::Start           , 'n'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\n');},
-- 
2.43.0


From f62050823af3c90ce8f18bfe53d84ea0efe34157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:25 +0000
Subject: [PATCH 15/35] fix: javascript line continuations can use any line
 terminator

---
 src/glue/parse/js/string_literal_prefix.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/glue/parse/js/string_literal_prefix.rs b/src/glue/parse/js/string_literal_prefix.rs
index 8ebb4a5..a3fec5a 100644
--- a/src/glue/parse/js/string_literal_prefix.rs
+++ b/src/glue/parse/js/string_literal_prefix.rs
@@ -14,6 +14,8 @@ pub enum StringLiteralPrefixLastState {
     Inside,
     /// THe `\` of an escape sequence.
     Start,
+    /// The carriage return of a line continuation.
+    LineContinuationCr,
     /// The first digit of an octal escape sequence.
     Octal1,
     /// The second digit of an octal escape sequence.
@@ -97,6 +99,8 @@ pub fn string_literal_prefix(s: &str) -> Result<String, StringLiteralPrefixError
     let mut quote = '"';
 
     for (i, c) in s.chars().enumerate() {
+        if last_state == StringLiteralPrefixLastState::LineContinuationCr && c != '\n' {last_state = StringLiteralPrefixLastState::Inside;}
+
         // Octal escape sequences can end early.
         if match (last_state, c) {
             (StringLiteralPrefixLastState::Octal1, '0'..='7') => false,
@@ -115,7 +119,9 @@ pub fn string_literal_prefix(s: &str) -> Result<String, StringLiteralPrefixError
             (StringLiteralPrefixLastState::Start           , 'b'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\u{0008}');},
             (StringLiteralPrefixLastState::Start           , 'f'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\u{000c}');},
             (StringLiteralPrefixLastState::Start           , 'n'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\n');},
-            (StringLiteralPrefixLastState::Start           , '\n'                             ) => {last_state = StringLiteralPrefixLastState::Inside          ;},
+            (StringLiteralPrefixLastState::Start           , '\n' | '\u{2028}' | '\u{2029}'   ) => {last_state = StringLiteralPrefixLastState::Inside          ;},
+            (StringLiteralPrefixLastState::Start           , '\r'                             ) => {last_state = StringLiteralPrefixLastState::LineContinuationCr;},
+            (StringLiteralPrefixLastState::LineContinuationCr, '\n'                           ) => {last_state = StringLiteralPrefixLastState::Inside          ;},
             (StringLiteralPrefixLastState::Start           , 'r'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\r');},
             (StringLiteralPrefixLastState::Start           , 't'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\t');},
             (StringLiteralPrefixLastState::Start           , 'v'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\u{000b}');},
-- 
2.43.0


From e2d2d442b7fb9ac080a775578ca867745629886a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:39 +0000
Subject: [PATCH 16/35] fix: join javascript surrogate pair escapes into the
 character they denote

---
 src/glue/parse/js/string_literal_prefix.rs | 25 +++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/glue/parse/js/string_literal_prefix.rs b/src/glue/parse/js/string_literal_prefix.rs
index a3fec5a..d5391f4 100644
--- a/src/glue/parse/js/string_literal_prefix.rs
+++ b/src/glue/parse/js/string_literal_prefix.rs
@@ -97,10 +97,21 @@ pub fn string_literal_prefix(s: &str) -> Result<String, StringLiteralPrefixError
 
     let mut scratchspace: u32 = 0;
     let mut quote = '"';
+    // The first half of a surrogate pair.
+    let mut high_surrogate: Option<u32> = None;
 
     for (i, c) in s.chars().enumerate() {
         if last_state == StringLiteralPrefixLastState::LineContinuationCr && c != '\n' {last_state = StringLiteralPrefixLastState::Inside;}
 
+        // The first half of a surrogate pair has to be followed by the second half.
+        if let Some(high_surrogate) = high_surrogate {
+            if !matches!((last_state, c),
+                (StringLiteralPrefixLastState::Inside, '\\')
+                | (StringLiteralPrefixLastState::Start, 'u')
+                | (StringLiteralPrefixLastState::UnicodeU | StringLiteralPrefixLastState::Unicode41 | StringLiteralPrefixLastState::Unicode42 | StringLiteralPrefixLastState::Unicode43, '0'..='9' | 'A'..='F' | 'a'..='f')
+            ) {Err(StringLiteralPrefixError::InvalidCodepoint(high_surrogate))?;}
+        }
+
         // Octal escape sequences can end early.
         if match (last_state, c) {
             (StringLiteralPrefixLastState::Octal1, '0'..='7') => false,
@@ -149,7 +160,19 @@ pub fn string_literal_prefix(s: &str) -> Result<String, StringLiteralPrefixError
             (StringLiteralPrefixLastState::UnicodeU        , '0'..='9' | 'A'..='F' | 'a'..='f') => {last_state = StringLiteralPrefixLastState::Unicode41       ; scratchspace =                     c.to_digit(16).unwrap();},
             (StringLiteralPrefixLastState::Unicode41       , '0'..='9' | 'A'..='F' | 'a'..='f') => {last_state = StringLiteralPrefixLastState::Unicode42       ; scratchspace = scratchspace * 16 + c.to_digit(16).unwrap();},
             (StringLiteralPrefixLastState::Unicode42       , '0'..='9' | 'A'..='F' | 'a'..='f') => {last_state = StringLiteralPrefixLastState::Unicode43       ; scratchspace = scratchspace * 16 + c.to_digit(16).unwrap();},
-            (StringLiteralPrefixLastState::Unicode43       , '0'..='9' | 'A'..='F' | 'a'..='f') => {last_state = StringLiteralPrefixLastState::Inside          ; scratchspace = scratchspace * 16 + c.to_digit(16).unwrap(); ret.push(char::from_u32(scratchspace).ok_or(StringLiteralPrefixError::InvalidCodepoint(scratchspace))?);},
+            (StringLiteralPrefixLastState::Unicode43       , '0'..='9' | 'A'..='F' | 'a'..='f') => {
+                last_state = StringLiteralPrefixLastState::Inside;
+                scratchspace = scratchspace * 16 + c.to_digit(16).unwrap();
+                match (high_surrogate.take(), scratchspace) {
+                    (None      , 0xD800..=0xDBFF) => {high_surrogate = Some(scratchspace);},
+                    (Some(high), 0xDC00..=0xDFFF) => {
+                        let codepoint = 0x10000 + (high - 0xD800) * 0x400 + (scratchspace - 0xDC00);
+                        ret.push(char::from_u32(codepoint).ok_or(StringLiteralPrefixError::InvalidCodepoint(codepoint))?);
+                    },
+                    (Some(high), _              ) => Err(StringLiteralPrefixError::InvalidCodepoint(high))?,
+                    (None      , _              ) => ret.push(char::from_u32(scratchspace).ok_or(StringLiteralPrefixError::InvalidCodepoint(scratchspace))?)
+                }
+            },
             (StringLiteralPrefixLastState::Inside          , '"' | '\''                       ) if c == quote => break,
             (StringLiteralPrefixLastState::Start           , _                                ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push(c);},
             (StringLiteralPrefixLastState::Inside          , _                                ) => {ret.push(c);}
-- 
2.43.0


From 9f9bccbfb144f530a8d239c67be375dc1dc09a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 17/35] fix: writing to the cache overwrites the existing entry

---
 src/glue/caching.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/glue/caching.rs b/src/glue/caching.rs
index 9e143b5..655af5b 100644
--- a/src/glue/caching.rs
+++ b/src/glue/caching.rs
@@ -293,6 +293,7 @@ impl InnerCache {
         Ok(cache::dsl::cache
             .filter(cache::dsl::category.eq(category))
             .filter(cache::dsl::key.eq(key))
+            .order(cache::dsl::id.desc())
             .limit(1)
             .select(CacheEntry::as_select())
             .load(self.connect()?)?
@@ -304,14 +305,19 @@ impl InnerCache {
     /// # Errors
     /// If the call to [`Self::connect`] returns an error, that error is returned.
     ///
-    /// If the call to [`RunQueryDsl::get_result`] returns an error, that error is returned.
+    /// If a call to [`RunQueryDsl::execute`] returns an error, that error is returned.
     pub fn write(&mut self, category: &str, key: &str, value: Option<&str>) -> Result<(), WriteToCacheError> {
         debug!(InnerCache::write, self, category, key, value);
-        diesel::replace_into(cache::table)
-            .values(&NewCacheEntry {category, key, value})
-            .returning(CacheEntry::as_returning())
-            .get_result(self.connect()?)?;
-        Ok(())
+        self.connect()?.immediate_transaction(|connection| {
+            diesel::delete(cache::dsl::cache
+                .filter(cache::dsl::category.eq(category))
+                .filter(cache::dsl::key.eq(key)))
+                .execute(connection)?;
+            diesel::insert_into(cache::table)
+                .values(&NewCacheEntry {category, key, value})
+                .execute(connection)?;
+            Ok(())
+        })
     }
 }
 
-- 
2.43.0


From 23f90f6a46679864be1aaaf599645575536cd36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 18/35] fix: opening the cache works after a crash, beside
 other processes, and with file:// paths

---
 src/glue/caching.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/glue/caching.rs b/src/glue/caching.rs
index 655af5b..fbffe07 100644
--- a/src/glue/caching.rs
+++ b/src/glue/caching.rs
@@ -8,6 +8,7 @@ use std::path::Path;
 use thiserror::Error;
 use serde::{Serialize, Deserialize};
 use diesel::prelude::*;
+use diesel::connection::SimpleConnection;
 
 use crate::types::*;
 use crate::util::*;
@@ -27,7 +28,7 @@ diesel::table! {
 }
 
 /// The Sqlite command to initialize the cache databese.
-pub const DB_INIT_COMMAND: &str = r#"CREATE TABLE cache (
+pub const DB_INIT_COMMAND: &str = r#"CREATE TABLE IF NOT EXISTS cache (
     id INTEGER NOT NULL PRIMARY KEY,
     category TEXT NOT NULL,
     "key" TEXT NOT NULL,
@@ -251,9 +252,7 @@ impl InnerCache {
 
     /// Returns the connection, connecting if not already connected.
     /// # Errors
-    /// If the call to [`std::fs::exists`] to check if the database exists returns an error, that error is returned.
-    ///
-    /// If the call to [`std::fs::File::create_new`] to create the database returns an error, that error is returned.
+    /// If the call to [`std::fs::File::create_new`] to create the database returns an error and the database doesn't exist, that error is returned.
     ///
     /// If the call to [`SqliteConnection::establish`] to connect to the database returns an error, that error is returned.
     ///
@@ -262,17 +261,18 @@ impl InnerCache {
     pub fn connect(&mut self) -> Result<&mut SqliteConnection, ConnectCacheError> {
         debug!(InnerCache::connect, self);
         if self.connection.get().is_none() {
-            let mut needs_init = self.path == CachePath::Memory;
-            if let CachePath::Path(path) = &self.path {
-                if !std::fs::exists(path)? {
-                    needs_init = true;
-                    std::fs::File::create_new(path)?;
+            if let Some(path) = self.path.as_path() {
+                // Another thread/process may be creating the database, too.
+                match std::fs::File::create_new(path) {
+                    Err(e) if !path.exists() => Err(e)?,
+                    _ => {}
                 }
             }
             let mut connection = SqliteConnection::establish(self.path.as_str())?;
-            if needs_init {
-                diesel::sql_query(DB_INIT_COMMAND).execute(&mut connection)?;
-            }
+            // Wait for other connections to the database instead of returning an error.
+            connection.batch_execute("PRAGMA busy_timeout = 30000")?;
+            // The database may exist but still be empty.
+            diesel::sql_query(DB_INIT_COMMAND).execute(&mut connection)?;
             self.connection.set(connection).map_err(|_| ()).expect("The connection to have just been confirmed unset.");
         }
         Ok(self.connection.get_mut().expect("The connection to have just been set."))
-- 
2.43.0


From b8c4de824b853dee5340cda8bea43ebbecdf45bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:44 +0000
Subject: [PATCH 19/35] fix: --no-proxy has an effect without other params
 options

---
 src/types/config/params.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/types/config/params.rs b/src/types/config/params.rs
index d1d56b3..c9b8573 100644
--- a/src/types/config/params.rs
+++ b/src/types/config/params.rs
@@ -392,6 +392,7 @@ impl ParamsDiffArgParser {
         #[cfg(feature = "cache")] #[allow(clippy::unnecessary_operation, reason = "False positive.")] {feature_flag_make_params_diff = feature_flag_make_params_diff || self.read_cache.is_some()};
         #[cfg(feature = "cache")] #[allow(clippy::unnecessary_operation, reason = "False positive.")] {feature_flag_make_params_diff = feature_flag_make_params_diff || self.write_cache.is_some()};
         #[cfg(feature = "http" )] #[allow(clippy::unnecessary_operation, reason = "False positive.")] {feature_flag_make_params_diff = feature_flag_make_params_diff || self.proxy.is_some()};
+        #[cfg(feature = "http" )] #[allow(clippy::unnecessary_operation, reason = "False positive.")] {feature_flag_make_params_diff = feature_flag_make_params_diff || self.no_proxy.is_some()};
         !self.flag.is_empty() || !self.unflag.is_empty() || !self.var.is_empty() || !self.unvar.is_empty() || !self.insert_into_set.is_empty() || !self.remove_from_set.is_empty() || !self.insert_into_map.is_empty() || !self.remove_from_map.is_empty() || feature_flag_make_params_diff
     }
 }
-- 
2.43.0


From 477d3f887f7674460e28b678864f5a5c0cbb4b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:44 +0000
Subject: [PATCH 20/35] fix: repeating params options for one set or map does
 not drop the earlier values

---
 src/types/config/params.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/types/config/params.rs b/src/types/config/params.rs
index c9b8573..3027f81 100644
--- a/src/types/config/params.rs
+++ b/src/types/config/params.rs
@@ -344,8 +344,26 @@ impl ParamsDiffArgParser {
             }).collect::<Result<_, _>>()?,
             unvars : self.unvar.into_iter().collect(),
             init_sets: Default::default(),
-            insert_into_sets: self.insert_into_set.into_iter().map(|mut x| if !x.is_empty() {Ok((x.swap_remove(0), x))} else {Err(ParamsDiffArgParserValueWrong::InsertIntoSetsNoName)}).collect::<Result<_, _>>()?,
-            remove_from_sets: self.remove_from_set.into_iter().map(|mut x| if !x.is_empty() {Ok((x.swap_remove(0), x))} else {Err(ParamsDiffArgParserValueWrong::RemoveFromSetsNoName)}).collect::<Result<_, _>>()?,
+            insert_into_sets: {
+                let mut ret = HashMap::<String, Vec<String>>::new();
+
+                for invocation in self.insert_into_set {
+                    let mut x = invocation.into_iter();
+                    ret.entry(x.next().ok_or(ParamsDiffArgParserValueWrong::InsertIntoSetsNoName)?).or_default().extend(x);
+                }
+
+                ret
+            },
+            remove_from_sets: {
+                let mut ret = HashMap::<String, Vec<String>>::new();
+
+                for invocation in self.remove_from_set {
+                    let mut x = invocation.into_iter();
+                    ret.entry(x.next().ok_or(ParamsDiffArgParserValueWrong::RemoveFromSetsNoName)?).or_default().extend(x);
+                }
+
+                ret
+            },
             delete_sets     : Default::default(),
             init_maps       : Default::default(),
             map_diffs       : {
@@ -354,7 +372,7 @@ impl ParamsDiffArgParser {
                 for invocation in self.insert_into_map {
                     if invocation.len() % 2 == 1 {
                         let mut x = invocation.into_iter();
-                        ret.entry(x.next().ok_or(ParamsDiffArgParserValueWrong::InsertIntoMapNoName)?).or_default().insert_into_map = std::iter::from_fn(|| x.next().zip(x.next())).collect();
+                        ret.entry(x.next().ok_or(ParamsDiffArgParserValueWrong::InsertIntoMapNoName)?).or_default().insert_into_map.extend(std::iter::from_fn(|| x.next().zip(x.next())));
                     } else {
                         Err(ParamsDiffArgParserValueWrong::InsertIntoMapKeyWithoutValue)?
                     }
@@ -364,7 +382,7 @@ impl ParamsDiffArgParser {
                     if !invocation.is_empty() {
                         let mut x = invocation.into_iter();
                         let name = x.next().ok_or(ParamsDiffArgParserValueWrong::RemoveFromMapNoMapSpecified)?;
-                        ret.entry(name).or_default().remove_from_map = x.collect();
+                        ret.entry(name).or_default().remove_from_map.extend(x);
                     } else {
                         Err(ParamsDiffArgParserValueWrong::RemoveFromMapNoMapSpecified)?
                     }
-- 
2.43.0


From 87451f0166918c34a9ca870fe1f7ec49a0d01613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:32 +0000
Subject: [PATCH 21/35] fix: reject duplicate names in params, params diffs and
 docs as their serde attributes say

---
 src/types/config/docs.rs   | 18 +++++++++---------
 src/types/config/params.rs | 28 ++++++++++++++--------------
 2 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/types/config/docs.rs b/src/types/config/docs.rs
index 7c3ccfb..fef7b77 100755
--- a/src/types/config/docs.rs
+++ b/src/types/config/docs.rs
@@ -21,31 +21,31 @@ pub struct ConfigDocs {
     #[serde(default, skip_serializing_if = "is_default")]
     pub description: Option<Vec<String>>,
     /// The documentation of the flags in [`Params::flags`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub flags: HashMap<String, String>,
     /// The documentation of the cars in [`Params::vars`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub vars: HashMap<String, String>,
     /// The documentation of the environment variables used.
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub environment_vars: HashMap<String, String>,
     /// The documentation of the sets in [`Params::sets`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub sets: HashMap<String, String>,
     /// The documentation of the lists in [`Params::lists`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub lists: HashMap<String, String>,
     /// The documentation of the maps in [`Params::maps`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub maps: HashMap<String, String>,
     /// The documentation of the named partitionings in [`Params::named_partitionings`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub named_partitionings: HashMap<String, String>,
     /// The documentation of the stuff used in [`JobContext`]s.
@@ -61,7 +61,7 @@ pub struct ConfigDocs {
 #[derive(Debug, Clone, Default, PartialEq, Eq, Serialize, Deserialize, Suitability)]
 pub struct JobContextDocs {
     /// Documentation for the vars in [`JobContext::vars`]
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub vars: HashMap<String, String>
 }
@@ -71,7 +71,7 @@ pub struct JobContextDocs {
 #[derive(Debug, Clone, Default, PartialEq, Eq, Serialize, Deserialize, Suitability)]
 pub struct TaskContextDocs {
     /// Documentation for the vars in [`TaskContext::vars`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub vars: HashMap<String, String>
 }
diff --git a/src/types/config/params.rs b/src/types/config/params.rs
index 3027f81..8122741 100644
--- a/src/types/config/params.rs
+++ b/src/types/config/params.rs
@@ -4,7 +4,7 @@ use std::collections::{HashMap, HashSet};
 
 use serde::{Serialize, Deserialize};
 use thiserror::Error;
-use serde_with::serde_as;
+use serde_with::{serde_as, MapPreventDuplicates, SetPreventDuplicates};
 
 use crate::types::*;
 use crate::glue::*;
@@ -19,25 +19,25 @@ pub struct Params {
     /// Flags allow enabling and disabling certain behavior.
     ///
     /// Defaults to an empty [`HashSet`].
-    #[serde_with = "SetPreventDuplicates<_>"]
+    #[serde_as(as = "SetPreventDuplicates<_>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub flags: HashSet<String>,
     /// Vars allow setting strings used for certain behaviors.
     ///
     /// Defaults to an empty [`HashMap`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub vars: HashMap<String, String>,
     /// Sets allow quickly checking if a string is in a certain genre of possible values.
     ///
     /// Defaults to an empty [`HashMap`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub sets: HashMap<String, HashSet<String>>,
     /// Lists are a niche thing that lets you iterate over a set of values in a known order.
     ///
     /// Defaults to an empty [`HashMap`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub lists: HashMap<String, Vec<String>>,
     /// Maps allow mapping input values to output values.
@@ -45,7 +45,7 @@ pub struct Params {
     /// Please note that [`Map`]s make this more powerful than a normal [`HashMap`], notably including a default value.
     ///
     /// Defaults to an empty [`HashMap`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub maps: HashMap<String, Map<String>>,
     /// Named partitionings effectively let you check which if several sets a value is in.
@@ -53,7 +53,7 @@ pub struct Params {
     /// See [this Wikipedia article](https://en.wikipedia.org/wiki/Partition_of_a_set) for the math end of this idea.
     ///
     /// Defaults to an empty [`HashMap`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub named_partitionings: HashMap<String, NamedPartitioning>,
     /// If [`true`], things that interact with the cache will read from the cache.
@@ -103,26 +103,26 @@ impl Default for Params {
 #[derive(Debug, Clone, Default, Deserialize, Serialize, PartialEq, Eq)]
 pub struct ParamsDiff {
     /// [`Params::flags`] to set.
-    #[serde_with = "SetPreventDuplicates<_>"]
+    #[serde_as(as = "SetPreventDuplicates<_>")]
     #[serde(default, skip_serializing_if = "is_default")] pub flags  : HashSet<String>,
     /// [`Params::flags`] to unset.
-    #[serde_with = "SetPreventDuplicates<_>"]
+    #[serde_as(as = "SetPreventDuplicates<_>")]
     #[serde(default, skip_serializing_if = "is_default")] pub unflags: HashSet<String>,
     /// [`Params::vars`] to set.
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")] pub vars  : HashMap<String, String>,
     /// [`Params::vars`] to unset.
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "SetPreventDuplicates<_>")]
     #[serde(default, skip_serializing_if = "is_default")] pub unvars: HashSet<String>,
     /// [`Params::sets`] to init.
     ///
     /// Shouldn't ever actually change anything, but if you're really fussy or something.
     #[serde(default, skip_serializing_if = "is_default")] pub init_sets: Vec<String>,
     /// [`Params::sets`] and values to insert into them.
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")] pub insert_into_sets: HashMap<String, Vec<String>>,
     /// [`Params::sets`] and values to remove from them.
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")] pub remove_from_sets: HashMap<String, Vec<String>>,
     /// [`Params::sets`] to delete.
     #[serde(default, skip_serializing_if = "is_default")] pub delete_sets: Vec<String>,
@@ -131,7 +131,7 @@ pub struct ParamsDiff {
     /// Shouldn't ever actually change anything, but if you're really fussy or something.
     #[serde(default, skip_serializing_if = "is_default")] pub init_maps: Vec<String>,
     /// [`MapDiff`]s to apply to [`Params::maps`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")] pub map_diffs: HashMap<String, MapDiff<String>>,
     /// [`Params::maps`] to delete.
     #[serde(default, skip_serializing_if = "is_default")] pub delete_maps: Vec<String>,
-- 
2.43.0


From 2c991aa1c2c192057ec20f09e01970b00eb06946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:37 +0000
Subject: [PATCH 22/35] fix: setting or removing the host of a URL without a
 special scheme always gives a valid URL

Emptying the host of a URL with a username, password, or port gave text that isn't a URL, and removing the host of a URL with an empty path and a query or fragment failed an assertion.
---
 src/types/better_url.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/types/better_url.rs b/src/types/better_url.rs
index 900b563..32dc365 100644
--- a/src/types/better_url.rs
+++ b/src/types/better_url.rs
@@ -354,15 +354,18 @@ impl BetterUrl {
     /// # Errors
     /// If the call to [`Url::set_host`] returns an error, the error is returned..
     pub fn set_host         (&mut self, host    : Option<&str>) -> Result<(), SetHostError>     {
-        if host.is_none() && self.url.has_host() && !self.url.is_special() {
-            // [`Url::set_host`] removes the host from the URL's text but still reports an (empty) host afterwards.
+        if self.url.is_special() {
+            self.url.set_host(host)?;
+        } else {
             // A path starting with `//` can't be kept without a host as it'd become the host.
-            if self.url.path().starts_with("//") {Err(ParseError::EmptyHost)?;}
+            if host.is_none() && self.url.has_host() && self.url.path().starts_with("//") {Err(ParseError::EmptyHost)?;}
+            // [`Url::set_host`] removes the host from the URL's text but still reports an (empty) host afterwards.
+            // It also lets the host be emptied when there's a username, password, or port, whose text is not a valid URL.
+            // And it requires the path to not be empty when there's a query or fragment.
             let mut new = self.url.clone();
-            new.set_host(None)?;
+            if host.is_none() && new.has_host() && new.path().is_empty() {new.set_path("/");}
+            new.set_host(host)?;
             self.url = Url::parse(new.as_str())?;
-        } else {
-            self.url.set_host(host)?;
         }
         self.host_details = self.url.host().map(|host| HostDetails::from_host(&host));
         Ok(())
-- 
2.43.0


From d6ad7e25886d4ed1428aa2babffaa6f285cc2c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:37 +0000
Subject: [PATCH 23/35] fix: a path starting with // never becomes the host of
 a URL without one

---
 src/types/better_url.rs | 10 +++++++++-
 src/types/url_part.rs   |  6 +++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/types/better_url.rs b/src/types/better_url.rs
index 32dc365..cdd2d9a 100644
--- a/src/types/better_url.rs
+++ b/src/types/better_url.rs
@@ -379,7 +379,15 @@ impl BetterUrl {
     /// If the call to [`Url::set_port`] returns an error, returns the error [`SetPortError`].
     pub fn set_port         (&mut self, port    : Option<u16> ) -> Result<(), SetPortError>     {self.url.set_port(port).map_err(|()| SetPortError)}
     /// [`Url::set_path`].
-    pub fn set_path         (&mut self, path    : &str        )                                 {self.url.set_path(path)}
+    pub fn set_path         (&mut self, path    : &str        )                                 {
+        let no_authority = !self.url.has_authority() && !self.url.cannot_be_a_base();
+        self.url.set_path(path);
+        if no_authority {
+            // [`Url::set_path`] doesn't keep a path starting with `//` from becoming the host in the URL's text. [`Url::parse`] does.
+            let dot = if self.url.path().starts_with("//") {"/."} else {""};
+            if let Ok(new) = Url::parse(&format!("{}:{dot}{}", self.url.scheme(), &self.url[url::Position::BeforePath..])) {self.url = new;}
+        }
+    }
     /// [`Url::set_query`].
     pub fn set_query        (&mut self, query   : Option<&str>)                                 {self.url.set_query(query)}
     /// [`Url::query_pairs_mut`].
diff --git a/src/types/url_part.rs b/src/types/url_part.rs
index 20defe7..1356aef 100755
--- a/src/types/url_part.rs
+++ b/src/types/url_part.rs
@@ -1137,7 +1137,11 @@ impl UrlPart {
             (Self::BeforePathSegment(n), _) => url.set_path(&format!("/{}", set_rel_segment(url.path_segments()?, *n, SegRel::Before, to)?.join("/"))),
             (Self::PathSegment      (n), _) => url.set_path(&format!("/{}", set_rel_segment(url.path_segments()?, *n, SegRel::At    , to)?.join("/"))),
             (Self::AfterPathSegment (n), _) => url.set_path(&format!("/{}", set_rel_segment(url.path_segments()?, *n, SegRel::After , to)?.join("/"))),
-            (Self::NextPathSegment     , _) => if let Some(to) = to {url.path_segments_mut()?.pop_if_empty().push(to);},
+            (Self::NextPathSegment     , _) => if let Some(to) = to {
+                url.path_segments_mut()?.pop_if_empty().push(to);
+                // Without an authority, the `/.` written before a path starting with `//` has to go when the path no longer does.
+                if !url.has_authority() {let path = url.path().to_string(); url.set_path(&path);}
+            },
 
 
 
-- 
2.43.0


From d2bd78689afdbf30d5a2f7f84f3cfe5bd0f5004c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:09 +0000
Subject: [PATCH 24/35] fix: default config: no-network also stops shareasale
 and tinyurl requests

---
 default-config.json | 85 +++++++++++++++++++++++++--------------------
 1 file changed, 47 insertions(+), 38 deletions(-)

diff --git a/default-config.json b/default-config.json
index 560e03e..6e827be 100755
--- a/default-config.json
+++ b/default-config.json
@@ -636,30 +636,36 @@
 															]}
 														}}
 													}},
-													{"All": [
-														{"SetHost": "shareasale-analytics.com"},
-														{"AllowQueryParams": ["b", "u", "m"]},
-														{"Common": "universal"},
-														{"SetPart": {
-															"part": "Whole",
-															"value": {"Modified": {
-																"value": {"Cache": {
-																	"category": "sharesale-escaped-redirect",
-																	"key": {"Part": "Whole"},
-																	"value": {"ExtractBetween": {
-																		"value": {"HttpRequest": {}},
-																		"start": "replace(",
-																		"end": ")"
-																	}}
-																}},
-																"modification": "GetJsStringLiteralPrefix"
+													{"If": {
+														"condition": {"Not": {"FlagIsSet": "no-network"}},
+														"mapper": {"All": [
+															{"SetHost": "shareasale-analytics.com"},
+															{"AllowQueryParams": ["b", "u", "m"]},
+															{"Common": "universal"},
+															{"SetPart": {
+																"part": "Whole",
+																"value": {"Modified": {
+																	"value": {"Cache": {
+																		"category": "sharesale-escaped-redirect",
+																		"key": {"Part": "Whole"},
+																		"value": {"ExtractBetween": {
+																			"value": {"HttpRequest": {}},
+																			"start": "replace(",
+																			"end": ")"
+																		}}
+																	}},
+																	"modification": "GetJsStringLiteralPrefix"
+																}}
 															}}
-														}}
-													]}
+														]}
+													}}
 												]}
 											}},
 											"shareasale.com": {"If": {
-												"condition": {"PathIs": "/r.cfm"},
+												"condition": {"All": [
+													{"PathIs": "/r.cfm"},
+													{"Not": {"FlagIsSet": "no-network"}}
+												]},
 												"mapper": {"All": [
 													{"SetHost": "shareasale-analytics.com"},
 													{"AllowQueryParams": ["b", "u", "m"]},
@@ -770,25 +776,28 @@
 											}},
 											"t.umblr.com": {"GetUrlFromQueryParam": "z"},
 											"tee.pub": {"SetHost": "www.teepublic.com"},
-											"tinyurl.com": {"All": [
-												{"PartMap": {
-													"part": {"PathSegment": 0},
-													"map": {
-														"preview": "None",
-														"app": {"SetPart": {"part": {"PathSegment": 0}, "value": "preview"}}
-													},
-													"else": {"SetPart": {"part": {"BeforePathSegment": 0}, "value": "preview"}}
-												}},
-												{"Common": {
-													"name": "extract-from-page-no-if",
-													"args": {
-														"vars": {
-															"start": "let url = \"",
-															"end": "\""
+											"tinyurl.com": {"If": {
+												"condition": {"Not": {"FlagIsSet": "no-network"}},
+												"mapper": {"All": [
+													{"PartMap": {
+														"part": {"PathSegment": 0},
+														"map": {
+															"preview": "None",
+															"app": {"SetPart": {"part": {"PathSegment": 0}, "value": "preview"}}
+														},
+														"else": {"SetPart": {"part": {"BeforePathSegment": 0}, "value": "preview"}}
+													}},
+													{"Common": {
+														"name": "extract-from-page-no-if",
+														"args": {
+															"vars": {
+																"start": "let url = \"",
+																"end": "\""
+															}
 														}
-													}
-												}}
-											]},
+													}}
+												]}
+											}},
 											"toyhou.se": {"If": {
 												"condition": {"PathIs": "/~r"},
 												"mapper": {"GetUrlFromQueryParam": "q"}
-- 
2.43.0


From ee8f6a369702c65d39174b5d81e31805ed420664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:09 +0000
Subject: [PATCH 25/35] fix: default config: tumblr-unsubdomain-blog no longer
 fails on tumblr.com without subdomain

---
 default-config.json | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/default-config.json b/default-config.json
index 6e827be..9e24f92 100755
--- a/default-config.json
+++ b/default-config.json
@@ -1400,7 +1400,7 @@
 								{
 									"condition": {"All": [
 										{"FlagIsSet": "tumblr-unsubdomain-blog"},
-										{"Not": {"PartIsOneOf": {"part": "Subdomain", "values": ["at", "www"]}}}
+										{"Not": {"TreatErrorAsPass": {"PartIsOneOf": {"part": "Subdomain", "values": ["at", "www"]}}}}
 									]},
 									"mapper": {"All": [
 										{"If": {
-- 
2.43.0


From 74685b1bea33207854306bd56b7466319d3d981a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:09 +0000
Subject: [PATCH 26/35] fix: default config: keep all-digit amazon product IDs

---
 default-config.json | 1 +
 1 file changed, 1 insertion(+)

diff --git a/default-config.json b/default-config.json
index 9e24f92..0ed9554 100755
--- a/default-config.json
+++ b/default-config.json
@@ -1578,6 +1578,7 @@
 										{"PartContains": {"part": {"PathSegment": -1}, "where": "Start", "value": "ref="}},
 										{"All": [
 											{"PartContains": {"part": "Path", "value": "/dp/"}},
+											{"Not": {"PartIs": {"part": {"PathSegment": -2}, "value": "dp"}}},
 											{"Any": [
 												{"PartContains": {"part": {"PathSegment": -1}, "where": "Anywhere", "value": "-"}},
 												{"PartMatches" : {"part": {"PathSegment": -1}, "matcher": {"OnlyTheseChars": ["0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "0", "-"]}}}
-- 
2.43.0


From 26c842cfeb165e2bb13fd3d62992b77018a58599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:09 +0000
Subject: [PATCH 27/35] fix: default config: clean amazon offer-listing URLs in
 one pass

---
 default-config.json | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/default-config.json b/default-config.json
index 0ed9554..837831f 100755
--- a/default-config.json
+++ b/default-config.json
@@ -1549,6 +1549,14 @@
 						"part": "DomainMiddle",
 						"map": {
 							"amazon": {"Rules": [
+								{
+									"condition": {"PartContains": {"part": "Path", "where": "Start", "value": "/gp/offer-listing/"}},
+									"mapper": {"All": [
+										{"SetPart": {"part": {"PathSegment": 0}, "value": "dp"}},
+										{"SetPart": {"part": {"PathSegment": 1}, "value": null}},
+										{"SetPart": {"part": {"QueryParam": "aod"}, "value": "1"}}
+									]}
+								},
 								{
 									"condition": {"PartContains": {"part": "Path", "value": "/dp/"}},
 									"mapper": {"AllowQueryParams": ["aod"]}
@@ -1587,14 +1595,6 @@
 									]},
 									"mapper": {"SetPart": {"part": {"PathSegment": -1}, "value": null}}
 								},
-								{
-									"condition": {"PartContains": {"part": "Path", "where": "Start", "value": "/gp/offer-listing/"}},
-									"mapper": {"All": [
-										{"SetPart": {"part": {"PathSegment": 0}, "value": "dp"}},
-										{"SetPart": {"part": {"PathSegment": 1}, "value": null}},
-										{"SetPart": {"part": {"QueryParam": "aod"}, "value": "1"}}
-									]}
-								},
 								{
 									"condition": {"PartIs": {"part": {"PathSegment": 1}, "value": "dp"}},
 									"mapper": {"SetPart": {"part": {"PathSegment": 0}, "value": null}}
-- 
2.43.0


From a30d92691f3fac7b564a4d2ebbcbd5819067a715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:09 +0000
Subject: [PATCH 28/35] fix: default config: embed-compatibility uses the
 bluesky-embed-host variable

---
 default-config.json | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/default-config.json b/default-config.json
index 837831f..1d86ec6 100755
--- a/default-config.json
+++ b/default-config.json
@@ -1502,7 +1502,7 @@
 								}},
 								{
 									"condition": {"FlagIsSet": "embed-compatibility"},
-									"mapper": {"SetPart": {"part": "RegDomain", "value": "fxbsky.app"}}
+									"mapper": {"SetPart": {"part": "Host", "value": {"Var": "bluesky-embed-host"}}}
 								}
 							]},
 							"danbooru.donmai.us": {"If": {
-- 
2.43.0


From 03e10c6ca93c04011e0957ee057aa47fcc297b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:48 +0000
Subject: [PATCH 29/35] fix: default config: turn youtu.be into youtube.com
 before the youtube.com rules, not instead of them

---
 default-config.json | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/default-config.json b/default-config.json
index 1d86ec6..f8b73c2 100755
--- a/default-config.json
+++ b/default-config.json
@@ -1170,6 +1170,19 @@
 
 
 
+				{
+					"PartMap": {
+						"part": "RegDomain",
+						"map": {
+							"youtu.be": {"All": [
+								{"SetHost" : "youtube.com"},
+								{"CopyPart": {"from": {"PathSegment": 0}, "to": {"QueryParam": "v"}}},
+								{"SetPart" : {"part": "Path", "value": "watch"}},
+								{"RemoveQueryParams": ["si", "feature", "pp"]}
+							]}
+						}
+					}
+				},
 				{
 					"PartMap": {
 						"comment-1": "If you can't get a certain domain to work here, it may be because Mozilla's Public Suffix List, therefore the psl crate, and therefore UrlPart consideres it a suffix.",
@@ -1420,12 +1433,6 @@
 								}}
 							]},
 							"yahoo.com": {"RemoveQueryParams": ["p", "src", "pspid", "activity", ".src", "specId", "y"]},
-							"youtu.be": {"All": [
-								{"SetHost" : "youtube.com"},
-								{"CopyPart": {"from": {"PathSegment": 0}, "to": {"QueryParam": "v"}}},
-								{"SetPart" : {"part": "Path", "value": "watch"}},
-								{"RemoveQueryParams": ["si", "feature", "pp"]}
-							]},
 							"youtube.com": {"All": [
 								{"RemoveQueryParams": ["si", "feature", "pp", "app"]},
 								{"If": {
-- 
2.43.0


From 1c24c2de7a76232abd58d7f52a7de97dff622509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:56 +0000
Subject: [PATCH 30/35] fix: default config: turn fxdeviantart.com into
 deviantart.com before following deviantart.com's outgoing links

---
 default-config.json | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/default-config.json b/default-config.json
index f8b73c2..9c102be 100755
--- a/default-config.json
+++ b/default-config.json
@@ -393,7 +393,7 @@
 									"1link.club", "action.openmedia.org", "allmylinks.com", "api.linkr.bio", "api.pinterest.com", "awin1.com", "bfy.tw", "boxd.it",
 									"bugzil.la", "buymeacoff.ee", "buymeacoffee.com", "cach.me", "carleton.ca", "cash.app", "click.notification.elsevier.com",
 									"deviantart.com", "duckduckgo.com", "duckduckgo.com", "duckduckgogg42xjoc72x3sjasowoarfbgcmvfimaftt6twagswzczad.onion",
-									"e.emailalerts.cnn.com", "facebook.com", "goodreads.com", "google.com", "gprivate.com", "href.li", "instagr.am", "instagram.com",
+									"e.emailalerts.cnn.com", "facebook.com", "fxdeviantart.com", "goodreads.com", "google.com", "gprivate.com", "href.li", "instagr.am", "instagram.com",
 									"l.instagram.com", "l.threads.com", "lmddgtfy.net", "lmgtfy2.com", "lnk.bio", "m.vk.com", "old.reddit.com", "open.substack.com",
 									"out.reddit.com", "pawoo.net", "pixiv.net", "preview.tinyurl.com", "proxy.notsobot.com", "rd.goodreads.com", "reddit.com", "reurl.cc",
 									"shareasale-analytics.com", "shareasale.com", "sketchfab.com", "sketchfab.com", "skfb.ly", "smarturl.it", "ss3.shipstation.com",
@@ -517,6 +517,7 @@
 													]}
 												}}
 											}},
+											"fxdeviantart.com": {"SetPart": {"part": "RegDomain", "value": "deviantart.com"}},
 											"go.bsky.app": {"GetUrlFromQueryParam": "u"},
 											"goodreads.com": {"If": {
 												"condition": {"PathIs": "/gp/r.html"},
-- 
2.43.0


From cf0a5f6205a3f4f08d200e8652945359c426f165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:34 +0000
Subject: [PATCH 31/35] fix: default config: leave tumblr's /safe-mode alone
 when it has no url parameter

---
 default-config.json | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/default-config.json b/default-config.json
index 9c102be..76d055d 100755
--- a/default-config.json
+++ b/default-config.json
@@ -1400,7 +1400,7 @@
 									]}
 								},
 								{
-									"condition": {"PathIs": "/safe-mode"},
+									"condition": {"All": [{"PathIs": "/safe-mode"}, {"QueryHasParam": "url"}]},
 									"mapper": {"GetUrlFromQueryParam": "url"}
 								},
 								{
-- 
2.43.0


From 528af750510a76b10056e8051a74c34984a55e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:05 +0000
Subject: [PATCH 32/35] fix: write StringSource::None and
 StringSourceJsonValue::Null out so that they load as themselves

---
 src/glue/json.rs           | 6 +++++-
 src/types/string_source.rs | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/glue/json.rs b/src/glue/json.rs
index 68afc9f..018c595 100644
--- a/src/glue/json.rs
+++ b/src/glue/json.rs
@@ -59,7 +59,11 @@ impl From<String> for StringSourceJsonValue {
 #[allow(clippy::missing_errors_doc, reason = "Who cares?")]
 impl Serialize for StringSourceJsonValue {
     fn serialize<S: serde::ser::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-        <StringSourceJsonValue>::serialize(self, serializer)
+        match self {
+            // Not `"Null"`, because that deserializes to [`Self::String`].
+            Self::Null => serializer.serialize_newtype_variant("StringSourceJsonValue", 0, "Null", &()),
+            _ => <StringSourceJsonValue>::serialize(self, serializer)
+        }
     }
 }
 
diff --git a/src/types/string_source.rs b/src/types/string_source.rs
index 3aeb82b..f8fd544 100644
--- a/src/types/string_source.rs
+++ b/src/types/string_source.rs
@@ -622,7 +622,8 @@ impl From<String> for Box<StringSource> {
 impl Serialize for StringSource {
     fn serialize<S: serde::ser::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
         match self {
-            Self::None => serializer.serialize_none(),
+            // Not `null`, because in an [`Option`] that would mean [`Option::None`].
+            Self::None => serializer.serialize_newtype_variant("StringSource", 0, "None", &()),
             _ => StringSource::serialize(self, serializer)
         }
     }
-- 
2.43.0


From fcb072a13c15ca585486dd484ab3c82740e17bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:05 +0000
Subject: [PATCH 33/35] fix: write non-ASCII header values out

---
 src/glue.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/glue.rs b/src/glue.rs
index 67e9ba3..5c4cf84 100644
--- a/src/glue.rs
+++ b/src/glue.rs
@@ -37,9 +37,9 @@ pub(crate) mod serde_headervalue {
 
     /// Serializes a [`HeaderValue`].
     /// # Errors
-    /// If the call to [`HeaderValue::to_str`] returns an error, that error is returned.
+    /// If the value isn't UTF-8, returns an error.
     pub fn serialize<S: Serializer>(x: &HeaderValue, s: S) -> Result<S::Ok, S::Error> {
-        s.serialize_str(x.to_str().map_err(S::Error::custom)?)
+        s.serialize_str(std::str::from_utf8(x.as_bytes()).map_err(S::Error::custom)?)
     }
 }
 
@@ -63,6 +63,6 @@ pub(crate) mod serde_headermap {
     /// # Errors
     /// Never returns an error.
     pub fn serialize<S: Serializer>(x: &HeaderMap, s: S) -> Result<S::Ok, S::Error> {
-        s.collect_map(x.into_iter().map(|(k, v)| v.to_str().map(|v| (k.as_str().to_string(), v.to_string()))).collect::<Result<HashMap<_, _>, _>>().map_err(S::Error::custom)?)
+        s.collect_map(x.into_iter().map(|(k, v)| std::str::from_utf8(v.as_bytes()).map(|v| (k.as_str().to_string(), v.to_string()))).collect::<Result<HashMap<_, _>, _>>().map_err(S::Error::custom)?)
     }
 }
-- 
2.43.0


From 0489b53a58e7fd715a8c289cf2d000ddca945499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:13 +0000
Subject: [PATCH 34/35] fix: read a command's STDOUT while its STDIN is written

---
 src/glue/command.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/glue/command.rs b/src/glue/command.rs
index 5b48067..80776e4 100644
--- a/src/glue/command.rs
+++ b/src/glue/command.rs
@@ -149,16 +149,22 @@ impl CommandConfig {
         let mut command = self.build(job_state)?;
         command.stdout(Stdio::piped());
         command.stderr(Stdio::null());
-        let child = if let Some(stdin) = &self.stdin {
+        let output = if let Some(stdin) = &self.stdin {
             command.stdin(Stdio::piped());
             let mut child=command.spawn()?;
-            let child_stdin=child.stdin.as_mut().expect("The STDIN just set to be available."); // This never panics.
-            child_stdin.write_all(get_string!(stdin, job_state, CommandError).as_bytes())?;
-            child
+            let mut child_stdin=child.stdin.take().expect("The STDIN just set to be available."); // This never panics.
+            let stdin = get_string!(stdin, job_state, CommandError);
+            // The command can write more than a pipe holds before it has read all of its STDIN, so its STDOUT has to be read while its STDIN is written.
+            std::thread::scope(|scope| {
+                let writer = scope.spawn(move || child_stdin.write_all(stdin.as_bytes()));
+                let output = child.wait_with_output();
+                writer.join().expect("Writing to the STDIN to never panic.")?; // This never panics.
+                output
+            })?
         } else {
-            command.spawn()?
+            command.spawn()?.wait_with_output()?
         };
-        Ok(from_utf8(&child.wait_with_output()?.stdout)?.to_string())
+        Ok(from_utf8(&output.stdout)?.to_string())
     }
 
     /// Executes the command and gets a [`Url`] from the first and only line of its STDOUT, trimming any trailing `\r` and `\n`.
-- 
2.43.0


From d4149b6b821e11598f452b4c3e321be4974c66df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:13 +0000
Subject: [PATCH 35/35] fix: don't let commands read the tasks

---
 src/glue/command.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glue/command.rs b/src/glue/command.rs
index 80776e4..b4f9a17 100644
--- a/src/glue/command.rs
+++ b/src/glue/command.rs
@@ -162,6 +162,8 @@ impl CommandConfig {
                 output
             })?
         } else {
+            // The STDIN of this program is where its tasks come from. Commands don't get to take them.
+            command.stdin(Stdio::null());
             command.spawn()?.wait_with_output()?
         };
         Ok(from_utf8(&output.stdout)?.to_string())
-- 
2.43.0

