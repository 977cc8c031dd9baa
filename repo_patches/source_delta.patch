From 1de88b283289feca9d8e81db4a45e2d480f826ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:25 +0000
Subject: [PATCH 01/29] fix: don't match a node when a variable sequence runs
 out of path

When a sequence below a node consumed the last segment, the hyperlink search
treated the node itself as a match for the whole path.
---
 src/handler/tree_router.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index 6855d5d..140283d 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -249,8 +249,11 @@ impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
                     Wildcard => {
                         current.wildcard_route.as_ref().map(|next| {
                             environment.route_state.fuse();
-                            let s = environment.route_state.snapshot();
-                            stack.push((current, Wildcard, s));
+                            //The sequence has to end with an ordinary match
+                            if !environment.route_state.is_empty() {
+                                let s = environment.route_state.snapshot();
+                                stack.push((current, Wildcard, s));
+                            }
                             environment.route_state.go_to(snapshot);
 
                             environment.route_state.keep();
-- 
2.43.0


From 6b9fdbda58c08512f56eb97c02469ba6d9b7c4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:06 +0000
Subject: [PATCH 02/29] fix: keep searching when a matching node rejects the
 request

Without hyperlinks, the search stopped at the first node that matched the path,
even if it had no handler for the method and a less specific route had. With
hyperlinks, the next handler inherited the status of the rejection.
---
 src/handler/tree_router.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index 140283d..d227a34 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -157,9 +157,19 @@ impl<T: FromHandler<H> + ApplyContext, D: AsRef<[u8]>, H> FromIterator<(Method,
     }
 }
 
+//Don't let an empty node hide that an other node was rejected for a better reason than `NotFound`.
+fn more_specific(rejection: Option<StatusCode>, status: StatusCode) -> Option<StatusCode> {
+    match rejection {
+        None | Some(StatusCode::NotFound) => Some(status),
+        rejection => rejection
+    }
+}
+
 impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
     fn handle_request<'a, 'b, 'l, 'g>(&self, mut environment: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> {
         let now = environment.route_state.snapshot();
+        let initial_status = environment.response.status();
+        let mut rejection = None;
         let mut stack = vec![(self, Wildcard, now), (self, Variable, now), (self, Static, now)];
 
         let mut hyperlinks = vec![];
@@ -169,10 +179,17 @@ impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
             environment.route_state.go_to(snapshot);
             if environment.route_state.is_empty() {
                 if !self.find_hyperlinks {
+                    //The other branches of a node are only for its children
+                    if branch != Static {
+                        continue;
+                    }
+
                     let (new_environment, old_hyperlinks) = environment.replace_hyperlinks(vec![]);
                     if let Err(returned_environment) = current.item.handle_request(new_environment) {
                         environment = returned_environment.replace_hyperlinks(old_hyperlinks).0;
-                        return Err(environment);
+                        rejection = more_specific(rejection, environment.response.status());
+                        environment.response.set_status(initial_status);
+                        continue;
                     } else {
                         return Ok(());
                     }
@@ -267,9 +284,7 @@ impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
             }
         }
 
-        if matches.is_empty() {
-            environment.response.set_status(StatusCode::NotFound);
-        } else if self.find_hyperlinks {
+        if !matches.is_empty() {
             hyperlinks.sort();
             hyperlinks.dedup();
             let (mut new_environment, old_hyperlinks) = environment.replace_hyperlinks(hyperlinks);
@@ -278,6 +293,8 @@ impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
                 new_environment.route_state = snapshot;
                 if let Err(returned_environment) = handler.handle_request(new_environment) {
                     new_environment = returned_environment;
+                    rejection = more_specific(rejection, new_environment.response.status());
+                    new_environment.response.set_status(initial_status);
                 } else {
                     return Ok(());
                 };
@@ -286,6 +303,7 @@ impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
             environment = new_environment.replace_hyperlinks(old_hyperlinks).0;
         }
 
+        environment.response.set_status(rejection.unwrap_or(StatusCode::NotFound));
 
         Err(environment)
     }
-- 
2.43.0


From 38e2859620846fb135baf60012975ec7172c74c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:09 +0000
Subject: [PATCH 03/29] fix: give back the route state when no route accepted
 the request

A router that is tried after a TreeRouter saw the path as already consumed and
variables from the abandoned search.
---
 src/handler/routing.rs     | 3 ++-
 src/handler/tree_router.rs | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/handler/routing.rs b/src/handler/routing.rs
index f87b800..575935c 100644
--- a/src/handler/routing.rs
+++ b/src/handler/routing.rs
@@ -153,7 +153,8 @@ impl<'a> RouteState<'a> {
 
     ///Assign names to the saved variables and return them.
     pub fn variables(&self, names: &[MaybeUtf8Owned]) -> HashMap<MaybeUtf8Owned, MaybeUtf8Owned> {
-        let values = self.route.iter().zip(self.variables.iter()).filter_map(|(v, keep)| {
+        //Anything after the current position may be left from an abandoned search.
+        let values = self.route.iter().zip(self.variables.iter()).take(self.index).filter_map(|(v, keep)| {
             if let Some(index) = *keep {
                 Some((index, *v))
             } else {
diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index d227a34..d5611ea 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -304,6 +304,7 @@ impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
         }
 
         environment.response.set_status(rejection.unwrap_or(StatusCode::NotFound));
+        environment.route_state.go_to(now);
 
         Err(environment)
     }
-- 
2.43.0


From 522b0763b4c456d44f6cf8c4e0bafa0a12ba4056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:12 +0000
Subject: [PATCH 04/29] fix: take back route variables when the handler rejects
 the request

---
 src/handler/variables.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/handler/variables.rs b/src/handler/variables.rs
index 690acdc..9ce4383 100644
--- a/src/handler/variables.rs
+++ b/src/handler/variables.rs
@@ -61,8 +61,12 @@ impl<'a, H: Build<'a>> Build<'a> for Variables<H> {
 
 impl<H: HandleRequest> HandleRequest for Variables<H> {
     fn handle_request<'a, 'b, 'l, 'g>(&self, mut environment: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> {
-        environment.context.variables = environment.route_state.variables(&self.variables).into();
-        self.handler.handle_request(environment)
+        let variables = environment.route_state.variables(&self.variables).into();
+        let old_variables = ::std::mem::replace(&mut environment.context.variables, variables);
+        self.handler.handle_request(environment).map_err(|mut environment| {
+            environment.context.variables = old_variables;
+            environment
+        })
     }
 
     fn hyperlinks<'a>(&'a self, base: Link<'a>) -> Vec<Link<'a>> {
-- 
2.43.0


From c3c1157e1e2ce9c686e5d5714369d409067bc591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:40 +0000
Subject: [PATCH 05/29] fix: don't panic when building paths with empty
 segments

---
 src/handler/tree_router.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index d5611ea..d248333 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -473,7 +473,7 @@ impl<'a, T: Default + ApplyContext> Builder<'a, T> {
         let context = self.context.clone();
 
         let node = path.as_ref().segments().fold(&mut *self.node, |node, segment| {
-            if segment[0] == b':' || segment[0] == b'*' {
+            if segment.starts_with(b":") || segment.starts_with(b"*") {
                 variables.to_mut().push(segment[1..].to_owned().into());
             }
 
@@ -522,7 +522,7 @@ impl<'a, T: Default + ApplyContext> Builder<'a, T> {
         let context = self.context.clone();
 
         let node = path.as_ref().segments().fold(&mut *self.node, |node, segment| {
-            if segment[0] == b':' || segment[0] == b'*' {
+            if segment.starts_with(b":") || segment.starts_with(b"*") {
                 variables.to_mut().push(segment[1..].to_owned().into());
             }
 
@@ -616,7 +616,7 @@ impl<'a, T> Builder<'a, T> {
             panic!("expected at most a single label, but got a longer path");
         }
 
-        if label[0] == b':' || label[0] == b'*' {
+        if label.starts_with(b":") || label.starts_with(b"*") {
             variables.to_mut().push(label[1..].to_owned().into());
         }
 
-- 
2.43.0


From 49d9f7a7a058b5bc01c63754469d0fd963cf0067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:07 +0000
Subject: [PATCH 06/29] fix: on_route registers its handler even if the node
 already exists

The handler was silently dropped when the node had been created before, or when
the label was the root.
---
 src/handler/tree_router.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index d248333..e89211a 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -605,11 +605,7 @@ impl<'a, T> Builder<'a, T> {
         let label = if let Some(label) = label_iter.next() {
             label
         } else {
-            return Builder {
-                node: self.node,
-                variables: self.variables.clone(),
-                context: self.context.clone()
-            };
+            return self.handler(handler);
         };
 
         if label_iter.next().is_some() {
@@ -620,11 +616,16 @@ impl<'a, T> Builder<'a, T> {
             variables.to_mut().push(label[1..].to_owned().into());
         }
 
-        let node = self.node.find_or_insert_router(label, || {
-            let mut new_context = context.clone().into_owned();
-            new_context.insert(VariableNames(variables.clone().into_owned()));
-            T::from_handler(new_context, handler)
-        });
+        let mut new_context = context.clone().into_owned();
+        new_context.insert(VariableNames(variables.clone().into_owned()));
+        let handler = T::from_handler(new_context, handler);
+
+        //Set or replace the handler, depending on if the node exists
+        let mut handler = Some(handler);
+        let node = self.node.find_or_insert_router(label, || handler.take().expect("handler used twice"));
+        if let Some(handler) = handler {
+            node.item = handler;
+        }
 
         Builder {
             node: node,
-- 
2.43.0


From 515d11af1ba8fc10027a6501cad5e672a12cac0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:10 +0000
Subject: [PATCH 07/29] fix: a '?' in the fragment of a request target doesn't
 start a query

---
 src/server/instance.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/server/instance.rs b/src/server/instance.rs
index 327f455..b0f6fba 100644
--- a/src/server/instance.rs
+++ b/src/server/instance.rs
@@ -238,9 +238,12 @@ impl<R: HandleRequest + 'static> HyperHandler for ServerInstance<R> {
 }
 
 fn parse_path(path: &str) -> ParsedUri {
+    //The fragment starts at the first '#', and may contain any '?'
+    let (path, fragment) = parse_fragment(path);
+
     match path.find('?') {
         Some(index) => {
-            let (query, fragment) = parse_fragment(&path[index+1..]);
+            let query = &path[index+1..];
 
             let mut path: Vec<_> = percent_decode(path[..index].as_bytes()).collect();
             if path.is_empty() {
@@ -255,8 +258,6 @@ fn parse_path(path: &str) -> ParsedUri {
             }
         },
         None => {
-            let (path, fragment) = parse_fragment(&path);
-
             let mut path: Vec<_> = percent_decode(path.as_bytes()).collect();
             if path.is_empty() {
                 path.push(b'/');
-- 
2.43.0


From a4151f4b4bbf4e140af966cd65af7e6533f11cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:13 +0000
Subject: [PATCH 08/29] fix: decode the query of absolute request targets like
 any other query

Non-UTF-8 data was replaced and '=' in values was treated differently, compared
to the query in a path.
---
 src/server/instance.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/server/instance.rs b/src/server/instance.rs
index b0f6fba..3260c7d 100644
--- a/src/server/instance.rs
+++ b/src/server/instance.rs
@@ -284,9 +284,10 @@ fn parse_url(url: &Url) -> ParsedUri {
     let mut path = vec![];
     path.extend(percent_decode(url.path().as_bytes()));
 
-    let query = url.query_pairs()
-        .map(|(k, v)| (k.into_owned(), v.into_owned()))
-        .collect();
+    let query = match url.query() {
+        Some(query) => utils::parse_parameters(query.as_bytes()),
+        None => Parameters::new()
+    };
 
     let host = url.host_str().map(|host| (host.into(), url.port()));
 
-- 
2.43.0


From 308c7f2119dd4d831d3d6e28773f7dc46d050143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:29 +0000
Subject: [PATCH 09/29] fix: mocked streaming responses accept data

Every non-empty write to a mocked chunked or raw response failed.
---
 src/response.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index 4656a17..51dc87b 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -465,7 +465,7 @@ impl<'a> Write for MaybeMock<hyper::server::response::Response<'a, hyper::net::S
         if let MaybeMock::Actual(ref mut response) = *self {
             response.write(buffer)
         } else {
-            Ok(0)
+            Ok(buffer.len())
         }
     }
 
-- 
2.43.0


From cac2d90e6f87b37ac45576e52f1c0a4a738fb27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:32 +0000
Subject: [PATCH 10/29] fix: don't panic when a filter silently aborts a chunk

---
 src/response.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 51dc87b..68b7e7a 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -939,8 +939,7 @@ impl<'a, 'b> Chunked<'a, 'b> {
             Some(Err(e)) => Err(Error::Io(e)),
             None => match filter_result {
                 Action::Abort(e) => Err(Error::Filter(e)),
-                Action::Next(None) => Ok(0),
-                _ => unreachable!()
+                Action::Next(_) | Action::SilentAbort => Ok(0)
             }
         }
     }
-- 
2.43.0


From f6c1870f9985788e1813f03a6e9866535ff62bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:35 +0000
Subject: [PATCH 11/29] fix: don't panic when ending a chunked response that
 failed to start

---
 src/response.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index 68b7e7a..ea045ad 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -953,7 +953,11 @@ impl<'a, 'b> Chunked<'a, 'b> {
     }
 
     fn finish(&mut self) -> Result<(), Error> {
-        let mut writer = try!(self.writer.take().expect("can only finish once"));
+        let mut writer = match self.writer.take() {
+            Some(writer) => try!(writer),
+            //The error from starting the response has already been reported
+            None => return Err(Error::Io(io::Error::new(io::ErrorKind::BrokenPipe, "end after close")))
+        };
         let write_queue = try!(filter_end(self.filters, self.global, &mut self.filter_storage));
 
         for action in write_queue {
-- 
2.43.0


From d2f81eb6ec600fcc18753c78e609825c8077cc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:38 +0000
Subject: [PATCH 12/29] fix: Write for Chunked reports the number of consumed
 bytes

It reported the length of the filtered content, which made io::copy and similar
functions repeat, skip or fail.
---
 src/response.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index ea045ad..aca209d 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -986,7 +986,8 @@ impl<'a, 'b> Chunked<'a, 'b> {
 
 impl<'a, 'b> Write for Chunked<'a, 'b> {
     fn write(&mut self, content: &[u8]) -> io::Result<usize> {
-        response_to_io_result(self.try_send(content))
+        //The filters may change the length of the content, but all of it was used
+        response_to_io_result(self.try_send(content)).map(|_| content.len())
     }
 
     fn write_all(&mut self, content: &[u8]) -> io::Result<()> {
-- 
2.43.0


From 4c412c2e9be31dbfd007a17726ff265b1bf28376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:41 +0000
Subject: [PATCH 13/29] fix: report when a filter aborts at the end of a
 response

---
 src/response.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index aca209d..85d59e4 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -1204,19 +1204,20 @@ fn filter_content<'a, 'd: 'a, Content: Into<Data<'d>>>(filters: &'a [Box<Respons
 }
 
 fn filter_end<'a>(filters: &'a [Box<ResponseFilter>], global: &Global, filter_storage: &mut AnyMap) -> Result<Vec<Action<'a>>, Error> {
-    let otuputs: Vec<_> = filters.into_iter()
-        .rev()
-        .map(|filter| {
-            let filter_context = FilterContext {
-                storage: filter_storage,
-                global: global,
-            };
-
-            filter.end(filter_context)
-        })
-        .take_while(|a| if let Action::Next(_) = *a { true } else { false })
-        .map(Some)
-        .collect();
+    let mut otuputs = vec![];
+
+    for filter in filters.into_iter().rev() {
+        let filter_context = FilterContext {
+            storage: filter_storage,
+            global: global,
+        };
+
+        match filter.end(filter_context) {
+            Action::Next(content) => otuputs.push(Some(Action::Next(content))),
+            Action::SilentAbort => break,
+            Action::Abort(e) => return Err(Error::Filter(e))
+        }
+    }
 
     let mut write_queue = vec![];
 
-- 
2.43.0


From 0e64ff7bd2b30b5778b573d44ffca7d89216994b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:44 +0000
Subject: [PATCH 14/29] fix: a silent abort only drops the content it was about

If the last filter silently aborted one piece of queued content, everything
after it was dropped as well.
---
 src/response.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 85d59e4..7b5ced3 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -669,9 +669,8 @@ impl<'a, 'b> Response<'a, 'b> {
             for action in write_queue {
                 match action {
                     Action::Next(Some(content)) => buffer.push_bytes(content.as_bytes()),
-                    Action::Next(None) => {},
-                    Action::Abort(e) => return Err(Error::Filter(e)),
-                    Action::SilentAbort => break
+                    Action::Next(None) | Action::SilentAbort => {},
+                    Action::Abort(e) => return Err(Error::Filter(e))
                 }
             }
 
@@ -686,9 +685,8 @@ impl<'a, 'b> Response<'a, 'b> {
             for action in write_queue {
                 match action {
                     Action::Next(Some(content)) => buffer.push_bytes(content.as_bytes()),
-                    Action::Next(None) => {},
-                    Action::Abort(e) => return Err(Error::Filter(e)),
-                    Action::SilentAbort => break
+                    Action::Next(None) | Action::SilentAbort => {},
+                    Action::Abort(e) => return Err(Error::Filter(e))
                 }
             }
 
@@ -793,9 +791,8 @@ impl<'a, 'b> Response<'a, 'b> {
             for action in write_queue {
                 match action {
                     Action::Next(Some(content)) => try!(writer.write_all(content.as_bytes())),
-                    Action::Next(None) => {},
-                    Action::Abort(e) => return Err(Error::Filter(e)),
-                    Action::SilentAbort => break
+                    Action::Next(None) | Action::SilentAbort => {},
+                    Action::Abort(e) => return Err(Error::Filter(e))
                 }
             }
 
-- 
2.43.0


From 231531fdb40fb89b5114f75cb12f1cb46f141dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:47 +0000
Subject: [PATCH 15/29] fix: close the connection when asked to, even if a
 filter aborts

The decision to close a congested connection was lost when a response filter
aborted the response before it started.
---
 src/response.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 7b5ced3..b5d1a2a 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -655,16 +655,17 @@ impl<'a, 'b> Response<'a, 'b> {
         } else {
             let mut buffer = vec![];
 
-            let (status, write_queue) = try!(filter_headers(
+            let filter_result = filter_headers(
                 self.filters,
                 writer.status(),
                 writer.headers_mut(),
                 self.global,
                 &mut filter_storage
-            ));
+            );
             if self.force_close {
                 writer.headers_mut().set(Connection(vec![ConnectionOption::Close]));
             }
+            let (status, write_queue) = try!(filter_result);
             *writer.status_mut() = status;
             for action in write_queue {
                 match action {
@@ -775,16 +776,18 @@ impl<'a, 'b> Response<'a, 'b> {
         writer.headers_mut().remove::<::header::ContentLength>();
         writer.headers_mut().remove_raw("content-length");
 
-        let writer = filter_headers(
+        let filter_result = filter_headers(
             self.filters,
             writer.status(),
             writer.headers_mut(),
             self.global,
             self.filter_storage_mut()
-        ).and_then(|(status, write_queue)|{
-            if self.force_close {
-                writer.headers_mut().set(Connection(vec![ConnectionOption::Close]));
-            }
+        );
+        if self.force_close {
+            writer.headers_mut().set(Connection(vec![ConnectionOption::Close]));
+        }
+
+        let writer = filter_result.and_then(|(status, write_queue)|{
             *writer.status_mut() = status;
             let mut writer = try!(writer.start());
 
-- 
2.43.0


From a2262867098ba2e069ac7b8ddd5d7ef4cccd36fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:49 +0000
Subject: [PATCH 16/29] fix: don't let handlers and filters contradict how the
 body is delimited

A Content-Length or Transfer-Encoding header from a handler or filter could end
up in a response that was sent in an other way, or without the content when a
filter aborted it, which makes it malformed.
---
 src/response.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index b5d1a2a..6e748bc 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -647,6 +647,8 @@ impl<'a, 'b> Response<'a, 'b> {
         let mut writer = self.writer.take().expect("response used after drop");
         let mut filter_storage = self.filter_storage.take().expect("response used after drop");
 
+        remove_framing(writer.headers_mut());
+
         if self.filters.is_empty() {
             if self.force_close {
                 writer.headers_mut().set(Connection(vec![ConnectionOption::Close]));
@@ -662,6 +664,7 @@ impl<'a, 'b> Response<'a, 'b> {
                 self.global,
                 &mut filter_storage
             );
+            remove_framing(writer.headers_mut());
             if self.force_close {
                 writer.headers_mut().set(Connection(vec![ConnectionOption::Close]));
             }
@@ -773,8 +776,7 @@ impl<'a, 'b> Response<'a, 'b> {
         let mut writer = self.writer.take().expect("response used after drop");
 
         //Make sure it's chunked
-        writer.headers_mut().remove::<::header::ContentLength>();
-        writer.headers_mut().remove_raw("content-length");
+        remove_framing(writer.headers_mut());
 
         let filter_result = filter_headers(
             self.filters,
@@ -783,6 +785,7 @@ impl<'a, 'b> Response<'a, 'b> {
             self.global,
             self.filter_storage_mut()
         );
+        remove_framing(writer.headers_mut());
         if self.force_close {
             writer.headers_mut().set(Connection(vec![ConnectionOption::Close]));
         }
@@ -822,7 +825,7 @@ impl<'a, 'b> Response<'a, 'b> {
         if self.force_close {
             writer.headers_mut().set(Connection(vec![ConnectionOption::Close]));
         }
-        writer.headers_mut().remove_raw("content-length");
+        remove_framing(writer.headers_mut());
         writer.headers_mut().set(::header::ContentLength(content_length));
 
         Raw {
@@ -1113,6 +1116,15 @@ impl<'a> Write for Raw<'a> {
     }
 }
 
+//How a body is delimited depends on how it's sent and must not be contradicted
+//by any header.
+fn remove_framing(headers: &mut Headers) {
+    headers.remove::<::header::ContentLength>();
+    headers.remove_raw("content-length");
+    headers.remove::<::header::TransferEncoding>();
+    headers.remove_raw("transfer-encoding");
+}
+
 fn response_to_io_result<T>(res:  Result<T, Error>) -> io::Result<T> {
     match res {
         Ok(v) => Ok(v),
-- 
2.43.0


From 4b350809ba14eb5304ecdb132490c07af3176d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 17/29] fix: respond with 500 when a handler panics

The response was sent with whatever status it had, usually 200, as if the
handler had finished.
---
 src/response.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/response.rs b/src/response.rs
index 6e748bc..62c912f 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -839,6 +839,9 @@ impl<'a, 'b> Drop for Response<'a, 'b> {
     ///Writes status code and headers and closes the connection.
     fn drop(&mut self) {
         if self.writer.is_some() {
+            if std::thread::panicking() {
+                self.set_status(StatusCode::InternalServerError);
+            }
             self.send_sized(&[][..]);
         }
     }
-- 
2.43.0


From b784166719838e0b367a5c17d0409250373db847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:55 +0000
Subject: [PATCH 18/29] fix: sending a directory as a file is an open error

It can be opened on some platforms, which resulted in a 200 response that
announced a body, but never sent it.
---
 src/response.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 62c912f..c5afaa6 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -38,7 +38,7 @@ use std::borrow::Cow;
 use std::convert::From;
 use std::str::{from_utf8, Utf8Error};
 use std::string::{FromUtf8Error};
-use std::fs::File;
+use std::fs::{File, Metadata};
 use std::path::{Path, PathBuf};
 use std::fmt;
 
@@ -334,6 +334,21 @@ impl<'a, 'b> SendResponse<'a, 'b> for io::Error {
     }
 }
 
+//Directories can be opened in some environments, but not read.
+fn file_metadata(file: &File) -> io::Result<Metadata> {
+    let metadata = try!(file.metadata());
+    if metadata.is_dir() {
+        Err(io::Error::new(io::ErrorKind::Other, "expected a file, but found a directory"))
+    } else {
+        Ok(metadata)
+    }
+}
+
+fn open_file(path: &Path) -> io::Result<File> {
+    let file = try!(File::open(path));
+    file_metadata(&file).map(|_| file)
+}
+
 impl<'d, 'a, 'b> SendResponse<'a, 'b> for &'d Path {
     type Error = FileError<'a, 'b>;
 
@@ -344,7 +359,7 @@ impl<'d, 'a, 'b> SendResponse<'a, 'b> for &'d Path {
             .and_then(|ext| ::file::ext_to_mime(&ext.to_string_lossy()))
             .unwrap_or_else(|| Mime(TopLevel::Application, SubLevel::Ext("octet-stream".into()), vec![]));
 
-        let file = match File::open(self) {
+        let file = match open_file(self) {
             Ok(file) => file,
             Err(e) => return Err(FileError::Open(e, response))
         };
@@ -366,7 +381,7 @@ impl<'a, 'b> SendResponse<'a, 'b> for File {
     type Error = FileError<'a, 'b>;
 
     fn send_response(mut self, response: Response<'a, 'b>) -> Result<(), FileError<'a, 'b>> {
-        let metadata = match self.metadata() {
+        let metadata = match file_metadata(&self) {
             Ok(metadata) => metadata,
             Err(e) => return Err(FileError::Open(e, response)),
         };
@@ -761,7 +776,7 @@ impl<'a, 'b> Response<'a, 'b> {
             .and_then(|ext| to_mime(&ext.to_string_lossy()))
             .unwrap_or_else(|| Mime(TopLevel::Application, SubLevel::Ext("octet-stream".into()), vec![]));
 
-        let file = match File::open(path) {
+        let file = match open_file(path) {
             Ok(file) => file,
             Err(e) => return Err(FileError::Open(e, self))
         };
-- 
2.43.0


From 75e75ef5d4dd986b5d86ec416d98aa600eab3444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 19/29] fix: stop counting a connection as open when its
 handler panics

The count was never decreased again, so every panic brought the server closer to
closing all connections after each response.
---
 src/server/instance.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/server/instance.rs b/src/server/instance.rs
index 3260c7d..9d72e0e 100644
--- a/src/server/instance.rs
+++ b/src/server/instance.rs
@@ -1,5 +1,6 @@
 use std::net::SocketAddr;
 use std::sync::atomic::{AtomicUsize, Ordering};
+use std::thread;
 
 use time;
 
@@ -127,6 +128,17 @@ impl<R: HandleRequest + 'static> ServerInstance<R> {
 
 }
 
+//The connection is lost without further notice when a handler or filter panics.
+struct PanicGuard<'a>(&'a AtomicUsize);
+
+impl<'a> Drop for PanicGuard<'a> {
+    fn drop(&mut self) {
+        if thread::panicking() {
+            self.0.fetch_sub(1, Ordering::SeqCst);
+        }
+    }
+}
+
 struct ParsedUri {
     host: Option<(String, Option<u16>)>,
     uri_path: UriPath,
@@ -145,6 +157,8 @@ impl<R: HandleRequest + 'static> HyperHandler for ServerInstance<R> {
             request_reader
         ) = request.deconstruct();
 
+        let _panic_guard = PanicGuard(&self.threads_in_use);
+
         let force_close = if let Some(ref keep_alive) = self.keep_alive {
             self.threads_in_use.load(Ordering::SeqCst) + keep_alive.free_threads > self.threads
         } else {
-- 
2.43.0


From fc40e2fe4dff0c1be7bedc2a7a06130a67f83dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:06 +0000
Subject: [PATCH 20/29] fix: video file extensions have video types, not image
 types

---
 build/mime.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/mime.rs b/build/mime.rs
index 0f9b1fb..e48cdb0 100644
--- a/build/mime.rs
+++ b/build/mime.rs
@@ -37,7 +37,7 @@ pub fn gen() {
             "text" => "MaybeKnown::Known(::mime::TopLevel::Text)".into(),
             "image" => "MaybeKnown::Known(::mime::TopLevel::Image)".into(),
             "audio" => "MaybeKnown::Known(::mime::TopLevel::Audio)".into(),
-            "video" => "MaybeKnown::Known(::mime::TopLevel::Image)".into(),
+            "video" => "MaybeKnown::Known(::mime::TopLevel::Video)".into(),
             "application" => "MaybeKnown::Known(::mime::TopLevel::Application)".into(),
             "multipart" => "MaybeKnown::Known(::mime::TopLevel::Multipart)".into(),
             "message" => "MaybeKnown::Known(::mime::TopLevel::Message)".into(),
-- 
2.43.0


From 5728aa59b1555e086519057357a8b25ac05bf4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 21/29] fix: don't take an unread request body for the next
 request

The connection is kept alive after the response, but nothing skipped what the
handler had not read.
---
 src/context/body.rs    | 11 +++++++++++
 src/server/instance.rs |  6 ++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/context/body.rs b/src/context/body.rs
index 0fc8b7c..31b78c6 100644
--- a/src/context/body.rs
+++ b/src/context/body.rs
@@ -4,6 +4,7 @@
 use multipart::server::{HttpRequest, Multipart};
 
 use std::io::{self, Read};
+use std::thread;
 
 use hyper::buffer::BufReader;
 use hyper::http::h1::HttpReader;
@@ -183,6 +184,16 @@ impl<'a, 'b> BodyReader<'a, 'b> {
 
     }
 
+///The part of the body that is left when the handler is done with it is
+///skipped, since it would be taken for the next request otherwise.
+impl<'a, 'b> Drop for BodyReader<'a, 'b> {
+    fn drop(&mut self) {
+        if !thread::panicking() {
+            let _ = io::copy(&mut self.reader, &mut io::sink());
+        }
+    }
+}
+
 impl<'a, 'b> Read for BodyReader<'a, 'b> {
     ///Read the request body.
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
diff --git a/src/server/instance.rs b/src/server/instance.rs
index 9d72e0e..8127050 100644
--- a/src/server/instance.rs
+++ b/src/server/instance.rs
@@ -159,6 +159,9 @@ impl<R: HandleRequest + 'static> HyperHandler for ServerInstance<R> {
 
         let _panic_guard = PanicGuard(&self.threads_in_use);
 
+        //Any unread part of the body is skipped last, after responding
+        let body = context::body::BodyReader::from_reader(request_reader, &request_headers);
+
         let force_close = if let Some(ref keep_alive) = self.keep_alive {
             self.threads_in_use.load(Ordering::SeqCst) + keep_alive.free_threads > self.threads
         } else {
@@ -193,8 +196,6 @@ impl<R: HandleRequest + 'static> HyperHandler for ServerInstance<R> {
                     });
                 }
 
-                let body = context::body::BodyReader::from_reader(request_reader, &request_headers);
-
                 let mut context = Context {
                     headers: request_headers,
                     http_version: request_version,
@@ -233,6 +234,7 @@ impl<R: HandleRequest + 'static> HyperHandler for ServerInstance<R> {
                     ContextAction::Abort(status) => {
                         *response.filter_storage_mut() = filter_storage;
                         response.set_status(status);
+                        drop(response);
                     }
                 }
             },
-- 
2.43.0


From e5385f3a66c22317c0bec6fc2cb164da0ff8d4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:40 +0000
Subject: [PATCH 22/29] fix: report it when the head of an empty file couldn't
 be sent

Nothing is written for an empty file, so the error from starting the response
was never picked up.
---
 src/response.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index c5afaa6..1bfc50b 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -387,7 +387,7 @@ impl<'a, 'b> SendResponse<'a, 'b> for File {
         };
 
         let mut writer = unsafe { response.into_raw(metadata.len()) };
-        io::copy(&mut self, &mut writer).map_err(FileError::Send).map(|_| ())
+        io::copy(&mut self, &mut writer).and_then(|_| writer.end()).map_err(FileError::Send)
     }
 }
 
-- 
2.43.0


From 166add7d080130d80a9375205911463b95e3ca66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:05 +0000
Subject: [PATCH 23/29] fix: ending a raw response that failed to start is an
 error

When the error from starting it was swallowed by `send`, `end` reported success
for a response that was never sent.
---
 src/response.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index 1bfc50b..ab9a511 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -1100,7 +1100,8 @@ impl<'a> Raw<'a> {
     pub fn end(mut self) -> io::Result<()> {
         let writer = match self.writer.take() {
             Some(Ok(writer)) => writer,
-            None => return Ok(()), //It has already ended
+            //The error from starting the response may have been ignored
+            None => return Err(io::Error::new(io::ErrorKind::BrokenPipe, "end after close")),
             Some(Err(e)) => return Err(e)
         };
         writer.end()
-- 
2.43.0


From 8fae586af3e6050122946ba3a676073444d7ee90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:27 +0000
Subject: [PATCH 24/29] fix: announce the right length for files that are
 partly read

A file is sent from its current position, but the whole length was announced.
---
 src/response.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index ab9a511..10b43a1 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -32,7 +32,7 @@
 //![raw]: struct.Raw.html
 
 use std;
-use std::io::{self, Write};
+use std::io::{self, Write, Seek, SeekFrom};
 use std::error;
 use std::borrow::Cow;
 use std::convert::From;
@@ -386,7 +386,9 @@ impl<'a, 'b> SendResponse<'a, 'b> for File {
             Err(e) => return Err(FileError::Open(e, response)),
         };
 
-        let mut writer = unsafe { response.into_raw(metadata.len()) };
+        //Only what comes after the current position will be sent
+        let position = self.seek(SeekFrom::Current(0)).unwrap_or(0);
+        let mut writer = unsafe { response.into_raw(metadata.len().saturating_sub(position)) };
         io::copy(&mut self, &mut writer).and_then(|_| writer.end()).map_err(FileError::Send)
     }
 }
-- 
2.43.0


From ea20e10997ca55e688f0bf9acfebc8e2cc44baff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:34 +0000
Subject: [PATCH 25/29] fix: compare strings to MaybeUtf8 the right way around

---
 src/context/maybe_utf8.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/context/maybe_utf8.rs b/src/context/maybe_utf8.rs
index 3b387b5..049de8b 100644
--- a/src/context/maybe_utf8.rs
+++ b/src/context/maybe_utf8.rs
@@ -313,7 +313,7 @@ impl<S, V> PartialOrd<MaybeUtf8<S, V>> for str where
     V: AsRef<[u8]>
 {
     fn partial_cmp(&self, other: &MaybeUtf8<S, V>) -> Option<Ordering> {
-        other.partial_cmp(self)
+        other.partial_cmp(self).map(Ordering::reverse)
     }
 }
 
@@ -322,7 +322,7 @@ impl<'a, S, V> PartialOrd<MaybeUtf8<S, V>> for &'a str where
     V: AsRef<[u8]>
 {
     fn partial_cmp(&self, other: &MaybeUtf8<S, V>) -> Option<Ordering> {
-        other.partial_cmp(self)
+        other.partial_cmp(self).map(Ordering::reverse)
     }
 }
 
@@ -331,7 +331,7 @@ impl<S, V> PartialOrd<MaybeUtf8<S, V>> for String where
     V: AsRef<[u8]>
 {
     fn partial_cmp(&self, other: &MaybeUtf8<S, V>) -> Option<Ordering> {
-        other.partial_cmp(self)
+        other.partial_cmp(self).map(Ordering::reverse)
     }
 }
 
@@ -340,7 +340,7 @@ impl<'a, S, V> PartialOrd<MaybeUtf8<S, V>> for Cow<'a, str> where
     V: AsRef<[u8]>
 {
     fn partial_cmp(&self, other: &MaybeUtf8<S, V>) -> Option<Ordering> {
-        other.partial_cmp(self.as_ref())
+        other.partial_cmp(self.as_ref()).map(Ordering::reverse)
     }
 }
 
@@ -349,7 +349,7 @@ impl<S, V> PartialOrd<MaybeUtf8<S, V>> for [u8] where
     V: AsRef<[u8]>
 {
     fn partial_cmp(&self, other: &MaybeUtf8<S, V>) -> Option<Ordering> {
-        other.partial_cmp(self)
+        other.partial_cmp(self).map(Ordering::reverse)
     }
 }
 
@@ -358,7 +358,7 @@ impl<'a, S, V> PartialOrd<MaybeUtf8<S, V>> for &'a [u8] where
     V: AsRef<[u8]>
 {
     fn partial_cmp(&self, other: &MaybeUtf8<S, V>) -> Option<Ordering> {
-        other.partial_cmp(self)
+        other.partial_cmp(self).map(Ordering::reverse)
     }
 }
 
@@ -367,7 +367,7 @@ impl<S, V> PartialOrd<MaybeUtf8<S, V>> for Vec<u8> where
     V: AsRef<[u8]>
 {
     fn partial_cmp(&self, other: &MaybeUtf8<S, V>) -> Option<Ordering> {
-        other.partial_cmp(self)
+        other.partial_cmp(self).map(Ordering::reverse)
     }
 }
 
-- 
2.43.0


From 515d31d6e61485b8254e2e54c79045b1240fa387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 26/29] fix: don't overflow when more threads are to be kept
 free than there are

---
 src/server/instance.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/instance.rs b/src/server/instance.rs
index 8127050..825cc80 100644
--- a/src/server/instance.rs
+++ b/src/server/instance.rs
@@ -163,7 +163,7 @@ impl<R: HandleRequest + 'static> HyperHandler for ServerInstance<R> {
         let body = context::body::BodyReader::from_reader(request_reader, &request_headers);
 
         let force_close = if let Some(ref keep_alive) = self.keep_alive {
-            self.threads_in_use.load(Ordering::SeqCst) + keep_alive.free_threads > self.threads
+            self.threads_in_use.load(Ordering::SeqCst).saturating_add(keep_alive.free_threads) > self.threads
         } else {
             false
         };
-- 
2.43.0


From ce161c538b82faf98b799dfc13d30da26ee929d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 27/29] fix: document the default media type as it is

---
 src/server/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/mod.rs b/src/server/mod.rs
index afc7558..af1567f 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -62,7 +62,7 @@ pub struct Server<R> {
     ///The content of the server header. Default is `"rustful"`.
     pub server: String,
 
-    ///The default media type. Default is `text/plain, charset: UTF-8`.
+    ///The default media type. Default is `text/html; charset=utf-8`.
     pub content_type: Mime,
 
     ///Globally accessible data.
-- 
2.43.0


From 08135c1434b7aeaa2c704c65ec1744d5b9a080be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:58 +0000
Subject: [PATCH 28/29] fix: a form whose boundary is utf-8 was not offered as
 multipart

The mime parser has a value of its own for utf-8, so the boundary must be
taken from any value, and not only from the extension ones.
---
 src/context/body.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/context/body.rs b/src/context/body.rs
index 31b78c6..eadf887 100644
--- a/src/context/body.rs
+++ b/src/context/body.rs
@@ -27,17 +27,13 @@ impl<'a, 'b> BodyReader<'a, 'b> {
     ///Internal and may change without warning.
     pub fn from_reader(reader: HttpReader<&'a mut BufReader<&'b mut NetworkStream>>, headers: &Headers) -> BodyReader<'a, 'b> {
         use header::ContentType;
-        use mime::{Mime, TopLevel, SubLevel, Attr, Value};
+        use mime::{Mime, TopLevel, SubLevel, Attr};
 
         let boundary = match headers.get() {
             Some(&ContentType(Mime(TopLevel::Multipart, SubLevel::FormData, ref attrs))) => {
                 attrs.iter()
                     .find(|&&(ref attr, _)| attr == &Attr::Boundary)
-                    .and_then(|&(_, ref val)| if let Value::Ext(ref boundary) = *val {
-                        Some(boundary.clone())
-                    } else {
-                        None
-                    })
+                    .map(|&(_, ref val)| val.as_str().to_owned())
             },
             _ => None
         };
@@ -61,17 +57,13 @@ impl<'a, 'b> BodyReader<'a, 'b> {
     #[cfg(feature = "multipart")]
     pub fn mock(headers: &'b Headers) -> BodyReader<'static, 'static> {
         use header::ContentType;
-        use mime::{Mime, TopLevel, SubLevel, Attr, Value};
+        use mime::{Mime, TopLevel, SubLevel, Attr};
 
         let boundary = match headers.get() {
             Some(&ContentType(Mime(TopLevel::Multipart, SubLevel::FormData, ref attrs))) => {
                 attrs.iter()
                     .find(|&&(ref attr, _)| attr == &Attr::Boundary)
-                    .and_then(|&(_, ref val)| if let Value::Ext(ref boundary) = *val {
-                        Some(boundary.clone())
-                    } else {
-                        None
-                    })
+                    .map(|&(_, ref val)| val.as_str().to_owned())
             },
             _ => None
         };
-- 
2.43.0


From 5b779c5a0799a305a15c535178abefa8b0202548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:04 +0000
Subject: [PATCH 29/29] fix: shared and boxed handlers keep their description

The implementations of Handler for Arc and Box only forwarded the request,
so links to such handlers had no description.
---
 src/handler/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/handler/mod.rs b/src/handler/mod.rs
index f8bf982..96217c6 100644
--- a/src/handler/mod.rs
+++ b/src/handler/mod.rs
@@ -180,12 +180,20 @@ impl<T: Handler> Handler for Arc<T> {
     fn handle(&self, context: Context, response: Response) {
         (**self).handle(context, response);
     }
+
+    fn description(&self) -> Option<Cow<'static, str>> {
+        (**self).description()
+    }
 }
 
 impl Handler for Box<Handler> {
     fn handle(&self, context: Context, response: Response) {
         (**self).handle(context, response);
     }
+
+    fn description(&self) -> Option<Cow<'static, str>> {
+        (**self).description()
+    }
 }
 
 ///A request environment, containing the context, response and route state.
-- 
2.43.0

