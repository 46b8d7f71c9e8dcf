From 456f366b067781e5627b5259eac20822f18994d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:52 +0000
Subject: [PATCH 01/65] fix: match mapping bases literally, not as regular
 expressions

---
 resync/mapper.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/resync/mapper.py b/resync/mapper.py
index 76d3e07..926c354 100644
--- a/resync/mapper.py
+++ b/resync/mapper.py
@@ -167,6 +167,18 @@ class Map:
             return(path)
         return(m.group(1))
 
+    def rel_path(self, base, name):
+        """Return the part of name after base, starting with a slash.
+
+        The base is matched literally, not as a pattern. Return / if name is
+        just base, and None if name is neither base nor below it.
+        """
+        if (name == base):
+            return('/')
+        if (name.startswith(base + '/')):
+            return(name[len(base):])
+        return(None)
+
     def dst_to_src(self, dst_file):
         """Return the src URI from the dst filepath.
 
@@ -178,12 +190,9 @@ class Map:
         slashes. However, a match of just self.dst_path withouth a trailing
         slash will return self.src_path with a trailing slash.
         """
-        m = re.match(self.dst_path + "(/.*)?$", dst_file)
-        if (m is None):
-            return(None)
-        rel_path = m.group(1)
+        rel_path = self.rel_path(self.dst_path, dst_file)
         if rel_path is None:
-            rel_path = '/'
+            return(None)
         return self.src_uri + rel_path
 
     def src_to_dst(self, src_uri):
@@ -195,12 +204,9 @@ class Map:
         slashes. However, a match of just self.src_path withouth a trailing
         slash will return self.dst_path with a trailing slash.
         """
-        m = re.match(self.src_uri + "(/.*)?$", src_uri)
-        if (m is None):
-            return(None)
-        rel_path = m.group(1)
+        rel_path = self.rel_path(self.src_uri, src_uri)
         if rel_path is None:
-            rel_path = '/'
+            return(None)
         return self.dst_path + rel_path
 
     def unsafe(self):
-- 
2.43.0


From 8d538236bd70ff130fd7a3b46d59406a983ef199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:56 +0000
Subject: [PATCH 02/65] fix: strip all trailing slashes from mapping bases

---
 resync/mapper.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/resync/mapper.py b/resync/mapper.py
index 926c354..91f71f2 100644
--- a/resync/mapper.py
+++ b/resync/mapper.py
@@ -162,10 +162,7 @@ class Map:
 
     def strip_trailing_slashes(self, path):
         """Return input path minus any trailing slashes."""
-        m = re.match(r"(.*)/+$", path)
-        if (m is None):
-            return(path)
-        return(m.group(1))
+        return(path.rstrip('/'))
 
     def rel_path(self, base, name):
         """Return the part of name after base, starting with a slash.
-- 
2.43.0


From d681ed4fa4470d6ec098dc05da37335e484fba81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 03/65] fix: do not map URIs with parent directory segments

---
 resync/mapper.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/resync/mapper.py b/resync/mapper.py
index 91f71f2..b245436 100644
--- a/resync/mapper.py
+++ b/resync/mapper.py
@@ -195,7 +195,9 @@ class Map:
     def src_to_dst(self, src_uri):
         """Return the dst filepath from the src URI.
 
-        Returns None on failure, local destination path on success.
+        Returns None on failure, local destination path on success. It is a
+        failure if src_uri includes a parent directory (..) segment below
+        self.src_uri because the path might then be outside of self.dst_path.
 
         Relies upon self.dst_path and self.src_path not including trailing
         slashes. However, a match of just self.src_path withouth a trailing
@@ -204,6 +206,9 @@ class Map:
         rel_path = self.rel_path(self.src_uri, src_uri)
         if rel_path is None:
             return(None)
+        # Never map to a path outside dst_path
+        if '..' in rel_path.split('/'):
+            return(None)
         return self.dst_path + rel_path
 
     def unsafe(self):
-- 
2.43.0


From db0aeb104bfa9a862bef6834d07e364e58bbf978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:23 +0000
Subject: [PATCH 04/65] fix: recognize duplicate mappings that differ in
 trailing slashes

---
 resync/mapper.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/resync/mapper.py b/resync/mapper.py
index b245436..fa4cc41 100644
--- a/resync/mapper.py
+++ b/resync/mapper.py
@@ -62,19 +62,20 @@ class Mapper():
                         "Bad mapping argument (%s), got %s" %
                         (mapping, str(entry)))
                 (src_uri, dst_path) = entry
+                new_map = Map(src_uri, dst_path)
                 # Check for dupes
                 for map in self.mappings:
-                    if (src_uri == map.src_uri):
+                    if (new_map.src_uri == map.src_uri):
                         raise MapperError(
                             "Attempt to set duplicate mapping for "
                             "source URI %s (with destination path %s)" %
                             (src_uri, dst_path))
-                    if (dst_path == map.dst_path):
+                    if (new_map.dst_path == map.dst_path):
                         raise MapperError(
                             "Attempt to set duplicate mapping for "
                             "destination path %s (with source URI %s)" %
                             (dst_path, src_uri))
-                self.mappings.append(Map(src_uri, dst_path))
+                self.mappings.append(new_map)
 
     def default_src_uri(self):
         """Default src_uri from mapping.
-- 
2.43.0


From 8a2521157d4b977f11b29cc1cf9fbec50bde8a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:28 +0000
Subject: [PATCH 05/65] fix: compare whole path components when looking for
 unsafe mappings

---
 resync/mapper.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/resync/mapper.py b/resync/mapper.py
index fa4cc41..da5e4a6 100644
--- a/resync/mapper.py
+++ b/resync/mapper.py
@@ -219,12 +219,15 @@ class Map:
         destination are the same, or if one is a component of the other path.
         """
         (scheme, netloc, path, params, query, frag) = urlparse(self.src_uri)
-        if (scheme != ''):
+        if (scheme == ''):
+            path = self.src_uri
+        elif (scheme != 'file'):
             return(False)
-        s = os.path.normpath(self.src_uri)
-        d = os.path.normpath(self.dst_path)
-        lcp = os.path.commonprefix([s, d])
-        return(s == lcp or d == lcp)
+        # Compare whole path components of absolute paths. Trailing slashes
+        # have been stripped, so an empty path is the root directory
+        s = os.path.abspath(path or '/')
+        d = os.path.abspath(self.dst_path or '/')
+        return(os.path.commonpath([s, d]) in (s, d))
 
     def __repr__(self):
         """Human readable string for one map."""
-- 
2.43.0


From ee2f8fda3be414c8c7f0267a5ea8035d2e1d80ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:47 +0000
Subject: [PATCH 06/65] fix: strict authority covers only whole path components

---
 resync/url_authority.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/url_authority.py b/resync/url_authority.py
index 7697e20..38a423e 100644
--- a/resync/url_authority.py
+++ b/resync/url_authority.py
@@ -68,6 +68,6 @@ class UrlAuthority(object):
             # b.example.org
         path = os.path.dirname(s.path)
         if (self.strict and path != self.master_path
-                and not path.startswith(self.master_path)):
+                and not path.startswith(self.master_path.rstrip('/') + '/')):
             return(False)
         return(True)
-- 
2.43.0


From ac52b9db9a01cf1132d379d95bdb072a3f960716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:53 +0000
Subject: [PATCH 07/65] fix: check authority for explicitly named change lists
 and in strict mode

---
 resync/client.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index 8474cc6..0a51b45 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -397,14 +397,13 @@ class Client(object):
         # change list URI and, if we used it, the sitemap URI
         if (not self.noauth):
             uauth_cs = UrlAuthority(change_list, self.strictauth)
-            if (not change_list_uri):
-                uauth_sm = UrlAuthority(self.sitemap)
-                for resource in src_change_list:
-                    if (not uauth_cs.has_authority_over(resource.uri)
-                            and (change_list_uri or not uauth_sm.has_authority_over(resource.uri))):
-                        raise ClientFatalError(
-                            "Aborting as change list (%s) mentions resource at a location it does not have authority over (%s), override with --noauth" %
-                            (change_list, resource.uri))
+            uauth_sm = UrlAuthority(self.sitemap, self.strictauth)
+            for resource in src_change_list:
+                if (not uauth_cs.has_authority_over(resource.uri)
+                        and (change_list_uri or not uauth_sm.has_authority_over(resource.uri))):
+                    raise ClientFatalError(
+                        "Aborting as change list (%s) mentions resource at a location it does not have authority over (%s), override with --noauth" %
+                        (change_list, resource.uri))
         # 5. Prune entries before starting timestamp and dupe changes for a
         # resource
         num_skipped = src_change_list.prune_updates_before(from_timestamp, spec_version=self.spec_version)
-- 
2.43.0


From 593cc2648febfe3dbf31c72475715b1b1d6ddb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:58 +0000
Subject: [PATCH 08/65] fix: discard the requested hashes that the source does
 not list, not those it does

---
 resync/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index 0a51b45..8d4dc66 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -790,8 +790,8 @@ class Client(object):
     def prune_hashes(self, hashes, list_type):
         """Prune any hashes not in source resource or change list."""
         discarded = []
-        for hash in hashes:
-            if (hash in self.hashes):
+        for hash in sorted(self.hashes):
+            if (hash not in hashes):
                 self.hashes.discard(hash)
                 discarded.append(hash)
         self.logger.info("Not calculating %s hash(es) on destination as not present "
-- 
2.43.0


From 8174e5203ff81297934896fe88e82b93bab02a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:24 +0000
Subject: [PATCH 09/65] fix: allow hashes to be used in incremental
 synchronization

---
 resync/change_list.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/resync/change_list.py b/resync/change_list.py
index 04cb6a1..53cbecf 100644
--- a/resync/change_list.py
+++ b/resync/change_list.py
@@ -84,3 +84,16 @@ class ChangeList(ListBaseWithIndex):
                 n += 1
         self.resources = pruned
         return(n)
+
+    def hashes(self):
+        """Return set of hashes uses in this change list."""
+        hashes = set()
+        if (self.resources is not None):
+            for resource in self:
+                if (resource.md5 is not None):
+                    hashes.add('md5')
+                if (resource.sha1 is not None):
+                    hashes.add('sha-1')
+                if (resource.sha256 is not None):
+                    hashes.add('sha-256')
+        return(hashes)
-- 
2.43.0


From e2ed5f5c4b0666735a34ccf87076c6ed0dd3b76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:29 +0000
Subject: [PATCH 10/65] fix: make --checksum work without --hash

---
 resync/client_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/client_utils.py b/resync/client_utils.py
index 02a6ba1..ff43b43 100644
--- a/resync/client_utils.py
+++ b/resync/client_utils.py
@@ -212,7 +212,7 @@ def process_shared_misc_options(args, include_remote=False):
     Parse options that the resync-sync, resync-build and resync-explorer scripts use.
     """
     if args.checksum:
-        args.hash.append('md5')
+        args.hash = (args.hash or []) + ['md5']
     if include_remote:
         if args.access_token:
             set_url_or_file_open_config('bearer_token', args.access_token)
-- 
2.43.0


From ea8d90dcc7a3680f3f8c5ae19c380a967c74e970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:35 +0000
Subject: [PATCH 11/65] fix: do not create directories or record client state
 in a dry run

---
 resync/client.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index 8d4dc66..8cdc975 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -316,7 +316,7 @@ class Client(object):
             num_deleted += self.delete_resource(resource,
                                                 filename, allow_deletion)
         # 6. Store last timestamp to allow incremental sync
-        if (not audit_only and self.last_timestamp > 0):
+        if (not audit_only and not self.dryrun and self.last_timestamp > 0):
             ClientState().set_state(self.sitemap, self.last_timestamp)
             self.logger.info(
                 "Written last timestamp %s for incremental sync" %
@@ -468,7 +468,7 @@ class Client(object):
         self.log_status(incremental=True, created=num_created, updated=num_updated,
                         deleted=num_deleted, to_delete=to_delete)
         # 8. Record last timestamp we have seen
-        if (self.last_timestamp > 0):
+        if (not self.dryrun and self.last_timestamp > 0):
             ClientState().set_state(self.sitemap, self.last_timestamp)
             self.logger.info(
                 "Written last timestamp %s for incremental sync" %
@@ -493,8 +493,6 @@ class Client(object):
 
         Returns the number of resources updated/created (0 or 1)
         """
-        path = os.path.dirname(filename)
-        distutils.dir_util.mkpath(path)
         num_updated = 0
         if (self.dryrun):
             self.logger.info(
@@ -502,6 +500,8 @@ class Client(object):
                 (resource.uri, filename))
         else:
             # 1. GET
+            path = os.path.dirname(filename)
+            distutils.dir_util.mkpath(path)
             for try_i in range(1, self.tries + 1):
                 try:
                     with url_or_file_open(resource.uri, timeout=self.timeout) as fh_in:
-- 
2.43.0


From 15ffcba4cfb96b284db5c7a8960844d1f1ed0e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:40 +0000
Subject: [PATCH 12/65] fix: do not record times of deleted local files as
 source state in baseline sync

---
 resync/client.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resync/client.py b/resync/client.py
index 8cdc975..026d151 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -310,11 +310,15 @@ class Client(object):
             filename = self.mapper.src_to_dst(uri)
             self.logger.info("updated: %s -> %s" % (uri, filename))
             num_updated += self.update_resource(resource, filename, 'updated')
+        # Timestamps of deleted resources are those of the local files and say
+        # nothing about the source, thus must not affect self.last_timestamp
+        last_source_timestamp = self.last_timestamp
         for resource in deleted:
             uri = resource.uri
             filename = self.mapper.src_to_dst(uri)
             num_deleted += self.delete_resource(resource,
                                                 filename, allow_deletion)
+        self.last_timestamp = last_source_timestamp
         # 6. Store last timestamp to allow incremental sync
         if (not audit_only and not self.dryrun and self.last_timestamp > 0):
             ClientState().set_state(self.sitemap, self.last_timestamp)
-- 
2.43.0


From 10ba5b3450f938672e13aaf93421605d11515cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:56 +0000
Subject: [PATCH 13/65] fix: respect a limit of one entry per sitemap

---
 resync/list_base_with_index.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index b8f74ef..dc69cad 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -377,9 +377,10 @@ class ListBaseWithIndex(ListBase):
         chunk.default_capability()
         if (first is not None):
             chunk.add(first)
-        for r in resource_iter:
-            chunk.add(r)
-            if (len(chunk) >= self.max_sitemap_entries):
+        while (len(chunk) < self.max_sitemap_entries):
+            try:
+                chunk.add(next(resource_iter))
+            except StopIteration:
                 break
         # Get next to see whether there are more resources
         try:
-- 
2.43.0


From 0ccfacc2802f23bf8fa57437ceaecc887792d775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:01 +0000
Subject: [PATCH 14/65] fix: do not take https URIs for local files when
 reading a sitemapindex

---
 resync/list_base_with_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index dc69cad..3824636 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -414,7 +414,7 @@ class ListBaseWithIndex(ListBase):
         Test is to see whether have either an explicit file: URI or whether
         there is no scheme name.
         """
-        return(re.match(r'file:', uri) or not re.match(r'\w{3,4}:', uri))
+        return(re.match(r'file:', uri) or not re.match(r'\w+:', uri))
 
 
 class ListBaseIndexError(Exception):
-- 
2.43.0


From 17dd0cdae2eba0447197d288a197e437fc219e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:29 +0000
Subject: [PATCH 15/65] fix: read change lists and archives that are split over
 several files

---
 resync/list_base_with_index.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index 3824636..2c98205 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -16,6 +16,7 @@ from .hashes import Hashes
 from .list_base import ListBase
 from .mapper import Mapper, MapperError
 from .resource import Resource
+from .resource_container import ResourceContainer
 from .sitemap import Sitemap
 from .url_authority import UrlAuthority
 from .url_or_file_open import url_or_file_open
@@ -107,7 +108,11 @@ class ListBaseWithIndex(ListBase):
             pass
         self.logger.info("Read sitemap/sitemapindex from %s" % (uri))
         s = self.new_sitemap()
-        s.parse_xml(fh=fh, resources=self, capability=self.capability_name)
+        # Read into plain container first because the entries of a sitemapindex
+        # are not resources of this list (eg. have no change type)
+        doc = ResourceContainer(md=self.md, ln=self.ln)
+        s.parse_xml(fh=fh, resources=doc, capability=self.capability_name)
+        self.md = doc.md
         # what did we read? sitemap or sitemapindex?
         if (s.parsed_index):
             # sitemapindex
@@ -118,22 +123,23 @@ class ListBaseWithIndex(ListBase):
             self.logger.info(
                 "Parsed as sitemapindex, %d sitemaps" %
                 (len(
-                    self.resources)))
+                    doc.resources)))
             sitemapindex_is_file = self.is_file_uri(uri)
             if (index_only):
                 # don't read the component sitemaps
                 self.sitemapindex = True
+                for r in doc:
+                    self.add_unchecked(r)
                 return
             # now loop over all entries to read each sitemap and add to
             # resources
-            sitemaps = self.resources
-            self.resources = self.resources_class()
-            self.logger.info("Now reading %d sitemaps" % len(sitemaps.uris()))
-            for sitemap_uri in sorted(sitemaps.uris()):
+            self.logger.info("Now reading %d sitemaps" % len(doc.uris()))
+            for sitemap_uri in sorted(doc.uris()):
                 self.read_component_sitemap(
                     uri, sitemap_uri, s, sitemapindex_is_file)
         else:
             # sitemap
+            self.add(doc)
             self.logger.info("Parsed as sitemap, %d resources" %
                              (len(self.resources)))
 
@@ -178,11 +184,17 @@ class ListBaseWithIndex(ListBase):
             (sitemap_uri, self.content_length))
         component = sitemap.parse_xml(fh=fh, sitemapindex=False)
         # Copy resources into self, check any metadata
-        for r in component:
-            self.resources.add(r)
+        self.add(component)
         # FIXME - if rel="up" check it goes to correct place
         # FIXME - check capability
 
+    def add_unchecked(self, resource):
+        """Add a resource, such as a sitemapindex entry, without type specific checks."""
+        if (hasattr(self.resources, 'add')):
+            self.resources.add(resource)
+        else:
+            self.resources.append(resource)
+
     # OUTPUT
 
     def requires_multifile(self):
-- 
2.43.0


From 4ad1903aeee0d92c9bcf8c85aa52011ba7a7d12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:07 +0000
Subject: [PATCH 16/65] fix: read component sitemaps in the order given by the
 sitemapindex

---
 resync/list_base_with_index.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index 2c98205..ebffea4 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -134,7 +134,8 @@ class ListBaseWithIndex(ListBase):
             # now loop over all entries to read each sitemap and add to
             # resources
             self.logger.info("Now reading %d sitemaps" % len(doc.uris()))
-            for sitemap_uri in sorted(doc.uris()):
+            # in the order of the index, it matters for lists of changes
+            for sitemap_uri in doc.uris():
                 self.read_component_sitemap(
                     uri, sitemap_uri, s, sitemapindex_is_file)
         else:
-- 
2.43.0


From 1932475a300898db403e0c1ab66d6a1f7ebd7fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:12 +0000
Subject: [PATCH 17/65] fix: map component sitemaps of a local change list
 index like those of a resource list

---
 resync/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/client.py b/resync/client.py
index 026d151..a8f537c 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -371,7 +371,7 @@ class Client(object):
         # 3. Read change list from source
         try:
             self.logger.info("Reading change list %s" % (change_list))
-            src_change_list = ChangeList()
+            src_change_list = ChangeList(mapper=self.mapper)
             src_change_list.read(uri=change_list)
             self.logger.debug("Finished reading change list")
         except Exception as e:
-- 
2.43.0


From 9f49ea1962b125a918241fa9f5972afde9898373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:16 +0000
Subject: [PATCH 18/65] fix: allow several iterations over a resource
 collection at the same time

---
 resync/capability_list.py | 15 ++++-----------
 resync/resource_list.py   |  9 +--------
 resync/resource_set.py    | 10 +---------
 3 files changed, 6 insertions(+), 28 deletions(-)

diff --git a/resync/capability_list.py b/resync/capability_list.py
index 9d27ba0..93aa0cb 100644
--- a/resync/capability_list.py
+++ b/resync/capability_list.py
@@ -35,7 +35,7 @@ class CapabilitySet(ResourceSet):
         by using uri order for duplicates and adding any unknown ones
         at the end
         """
-        self._iter_next_list = []
+        ordered_uris = []
         # look through all resources and build capability to uri index
         uris = {}
         for uri in self.keys():
@@ -47,21 +47,14 @@ class CapabilitySet(ResourceSet):
         for cap in self.order:
             if (cap in uris):
                 for uri in sorted(uris[cap]):
-                    self._iter_next_list.append(uri)
+                    ordered_uris.append(uri)
                 del uris[cap]
         # add any left over capabilities we don't know about in alphabetical
         # order
         for cap in uris:
             for uri in sorted(uris[cap]):
-                self._iter_next_list.append(uri)
-        self._iter_next_list.reverse()
-        return(iter(self._iter_next, None))
-
-    def _iter_next(self):
-        if (len(self._iter_next_list) > 0):
-            return(self[self._iter_next_list.pop()])
-        else:
-            return(None)
+                ordered_uris.append(uri)
+        return(iter([self[uri] for uri in ordered_uris]))
 
 
 class CapabilityList(ListBase):
diff --git a/resync/resource_list.py b/resync/resource_list.py
index 41518c1..43bd7d3 100644
--- a/resync/resource_list.py
+++ b/resync/resource_list.py
@@ -35,14 +35,7 @@ class SortedIterMixin(object):
 
     def sorted_iter(self):
         """Iterator over all the resources in this dict by sorted key order."""
-        self._sorted_iter_next_list = sorted(self.keys(), reverse=True)
-        return iter(self._sorted_iter_next, None)
-
-    def _sorted_iter_next(self):
-        if (len(self._sorted_iter_next_list) > 0):
-            return self[self._sorted_iter_next_list.pop()]
-        else:
-            return None
+        return iter([self[uri] for uri in sorted(self.keys())])
 
 
 class ResourceListDict(dict, SortedIterMixin):
diff --git a/resync/resource_set.py b/resync/resource_set.py
index ccd77bd..25a7ab3 100644
--- a/resync/resource_set.py
+++ b/resync/resource_set.py
@@ -17,15 +17,7 @@ class ResourceSet(dict):
 
     def __iter__(self):
         """Iterator over all the resources in this ResourceSet."""
-        self._iter_next_list = sorted(self.keys())
-        self._iter_next_list.reverse()
-        return(iter(self._iter_next, None))
-
-    def _iter_next(self):
-        if (len(self._iter_next_list) > 0):
-            return(self[self._iter_next_list.pop()])
-        else:
-            return(None)
+        return(iter([self[uri] for uri in sorted(self.keys())]))
 
     def add(self, resource, replace=False):
         """Add just a single resource."""
-- 
2.43.0


From 73e4409a378c8313b1fe81631fcccda40f524431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:21 +0000
Subject: [PATCH 19/65] fix: list unknown capabilities in alphabetical order

---
 resync/capability_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/capability_list.py b/resync/capability_list.py
index 93aa0cb..7daa137 100644
--- a/resync/capability_list.py
+++ b/resync/capability_list.py
@@ -51,7 +51,7 @@ class CapabilitySet(ResourceSet):
                 del uris[cap]
         # add any left over capabilities we don't know about in alphabetical
         # order
-        for cap in uris:
+        for cap in sorted(uris, key=lambda name: name or ''):
             for uri in sorted(uris[cap]):
                 ordered_uris.append(uri)
         return(iter([self[uri] for uri in ordered_uris]))
-- 
2.43.0


From d62578a7da6f99bb636501f149b98b70a2674841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 20/65] fix: use whole path components for the common prefix of
 files in a dump

---
 resync/dump.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resync/dump.py b/resync/dump.py
index 0405718..85a09eb 100644
--- a/resync/dump.py
+++ b/resync/dump.py
@@ -138,10 +138,10 @@ class Dump(object):
                     "No file path defined for resource %s" %
                     resource.uri)
             if (path_prefix is None):
-                path_prefix = os.path.dirname(resource.path)
+                path_prefix = os.path.dirname(os.path.abspath(resource.path))
             else:
-                path_prefix = os.path.commonprefix(
-                    [path_prefix, os.path.dirname(resource.path)])
+                path_prefix = os.path.commonpath(
+                    [path_prefix, os.path.dirname(os.path.abspath(resource.path))])
             size = os.path.getsize(resource.path)
             if (resource.length is not None):
                 if (check_length and resource.length != size):
-- 
2.43.0


From 4ff5a4b752d7c4c4ac7f739ce1c8b068949022d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:46 +0000
Subject: [PATCH 21/65] fix: write paths within the dump in separate manifests,
 as in the dump itself

---
 resync/dump.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/resync/dump.py b/resync/dump.py
index 85a09eb..8fd682c 100644
--- a/resync/dump.py
+++ b/resync/dump.py
@@ -42,8 +42,6 @@ class Dump(object):
         for manifest in self.partition_dumps():
             dumpbase = "%s%05d" % (basename, n)
             dumpfile = "%s.%s" % (dumpbase, self.format)
-            if (write_separate_manifests):
-                manifest.write(basename=dumpbase + '.xml')
             if (self.format == 'zip'):
                 self.write_zip(manifest.resources, dumpfile)
             elif (self.format == 'warc'):
@@ -52,6 +50,10 @@ class Dump(object):
                 raise DumpError(
                     "Unknown dump format requested (%s)" %
                     (self.format))
+            # Separate manifest must have the paths used in the dump, which
+            # have been set while writing it
+            if (write_separate_manifests):
+                manifest.write(basename=dumpbase + '.xml')
             n += 1
         self.logger.info("Wrote %d dump files" % (n))
         return(n)
-- 
2.43.0


From 00fffd63f5a0a048c5a153d6305921636caa0fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:51 +0000
Subject: [PATCH 22/65] fix: allow files with dates outside of the ZIP date
 range in dumps

---
 resync/dump.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resync/dump.py b/resync/dump.py
index 8fd682c..49601a1 100644
--- a/resync/dump.py
+++ b/resync/dump.py
@@ -70,7 +70,8 @@ class Dump(object):
             dumpfile,
             mode="w",
             compression=compression,
-            allowZip64=True)
+            allowZip64=True,
+            strict_timestamps=False)
         # Write resources first
         rdm = ResourceDumpManifest(resources=resources)
         real_path = {}
-- 
2.43.0


From 43e61e4554bc9e1008effc33fd662ba0497568c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:20 +0000
Subject: [PATCH 23/65] fix: avoid clash of a resource named manifest.xml with
 the manifest of a dump

---
 resync/dump.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/resync/dump.py b/resync/dump.py
index 49601a1..5d4e77d 100644
--- a/resync/dump.py
+++ b/resync/dump.py
@@ -133,6 +133,7 @@ class Dump(object):
         """
         total_size = 0  # total size of all files in bytes
         path_prefix = None
+        manifest_dirs = set()  # dirs that have a file with the name of the manifest
         for resource in self.resources:
             if (resource.path is None):
                 # explicit test because exception raised by getsize otherwise
@@ -145,6 +146,8 @@ class Dump(object):
             else:
                 path_prefix = os.path.commonpath(
                     [path_prefix, os.path.dirname(os.path.abspath(resource.path))])
+            if (os.path.basename(resource.path) == 'manifest.xml'):
+                manifest_dirs.add(os.path.dirname(os.path.abspath(resource.path)))
             size = os.path.getsize(resource.path)
             if (resource.length is not None):
                 if (check_length and resource.length != size):
@@ -157,6 +160,9 @@ class Dump(object):
                     "Size of file (%s, %d) exceeds maximum (%d) dump size" %
                     (resource.path, size, self.max_size))
             total_size += size
+        if (path_prefix in manifest_dirs):
+            # Include name of last common dir to avoid clash with the manifest
+            path_prefix = os.path.dirname(path_prefix)
         self.path_prefix = path_prefix
         self.total_size = total_size
         self.logger.info(
-- 
2.43.0


From 59cfe5b9a48a3b3dcf4a744d5d62dfc4671b776e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:25 +0000
Subject: [PATCH 24/65] fix: regard resources with identical timestamps as
 equal with zero tolerance

---
 resync/resource.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resync/resource.py b/resync/resource.py
index 48c224b..85bf637 100644
--- a/resync/resource.py
+++ b/resync/resource.py
@@ -458,7 +458,8 @@ class Resource(object):
             # not equal if only one timestamp specified
             if (self.timestamp is None
                     or other.timestamp is None
-                    or abs(self.timestamp - other.timestamp) >= delta):
+                    or (self.timestamp != other.timestamp
+                        and abs(self.timestamp - other.timestamp) >= delta)):
                 return False
         if ((self.md5 is not None and other.md5 is not None)
                 and self.md5 != other.md5):
-- 
2.43.0


From 881c48c4905acbba761a35f0c2683ff233d8aa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:30 +0000
Subject: [PATCH 25/65] fix: read at, completed, from and until times of
 entries

---
 resync/sitemap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resync/sitemap.py b/resync/sitemap.py
index 0cf5271..a795ab8 100644
--- a/resync/sitemap.py
+++ b/resync/sitemap.py
@@ -339,7 +339,8 @@ class Sitemap(object):
             # have on element, look at attributes
             md = self.md_from_etree(md_elements[0], context=loc)
             # simple attributes that map directly to Resource object attributes
-            for att in ('capability', 'change', 'datetime', 'length', 'path', 'mime_type'):
+            for att in ('capability', 'change', 'datetime', 'length', 'path', 'mime_type',
+                        'md_at', 'md_completed', 'md_from', 'md_until'):
                 if (att in md):
                     setattr(resource, att, md[att])
             # The ResourceSync beta spec lists md5, sha-1 and sha-256 fixity
-- 
2.43.0


From 607129ed2a1b87064b0dcd9d993fe2ed14dcd60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:34 +0000
Subject: [PATCH 26/65] fix: report invalid dates in sitemaps as
 SitemapParseError

---
 resync/sitemap.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/resync/sitemap.py b/resync/sitemap.py
index a795ab8..2d0f2ba 100644
--- a/resync/sitemap.py
+++ b/resync/sitemap.py
@@ -329,7 +329,10 @@ class Sitemap(object):
             raise SitemapParseError(
                 "Multiple <lastmod> elements while parsing <url> in sitemap")
         elif (len(lastmod_elements) == 1):
-            resource.lastmod = lastmod_elements[0].text
+            try:
+                resource.lastmod = lastmod_elements[0].text
+            except ValueError as e:
+                raise SitemapParseError("Invalid <lastmod> for %s (%s)" % (loc, str(e)))
         # proceed to look for other resource attributes in an rs:md element
         md_elements = etree.findall('{' + RS_NS + "}md")
         if (len(md_elements) > 1):
@@ -342,7 +345,11 @@ class Sitemap(object):
             for att in ('capability', 'change', 'datetime', 'length', 'path', 'mime_type',
                         'md_at', 'md_completed', 'md_from', 'md_until'):
                 if (att in md):
-                    setattr(resource, att, md[att])
+                    try:
+                        setattr(resource, att, md[att])
+                    except ValueError as e:
+                        raise SitemapParseError("Invalid value in <rs:md> for %s (%s)" %
+                                                (loc, str(e)))
             # The ResourceSync beta spec lists md5, sha-1 and sha-256 fixity
             # digest types. Parse and warn of errors ignored.
             if ('hash' in md):
-- 
2.43.0


From 0c655095e59f15a992db3753c01513f4774a6d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:51 +0000
Subject: [PATCH 27/65] fix: do not mangle paths and URIs when looking for the
 source resource list

---
 resync/client.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index a8f537c..61328af 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -181,7 +181,6 @@ class Client(object):
         errors = []
         for uri in [urljoin(self.sitemap, '.well-known/resourcesync'),
                     urljoin(uri_host, '.well-known/resourcesync')]:
-            uri = uri.lstrip('file:///')  # urljoin adds this for local files
             try:
                 rluri = self.find_resource_list_from_source_description(uri)
                 return(self.read_resource_list(rluri))
@@ -191,7 +190,6 @@ class Client(object):
         for uri in [urljoin(self.sitemap, 'resourcelist.xml'),
                     urljoin(self.sitemap, 'sitemap.xml'),
                     urljoin(uri_host, 'sitemap.xml')]:
-            uri = uri.lstrip('file:///')  # urljoin adds this for local files
             try:
                 return(self.read_resource_list(uri))
             except ClientError as e:
-- 
2.43.0


From eeeb28d2ea66bece3f1ab6a090ad35efb6f2f090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:24 +0000
Subject: [PATCH 28/65] fix: show response to HEAD requests on web resources in
 the explorer

---
 resync/explorer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resync/explorer.py b/resync/explorer.py
index 3e3a3bc..3ba99eb 100644
--- a/resync/explorer.py
+++ b/resync/explorer.py
@@ -278,8 +278,9 @@ class Explorer(Client):
         if (re.match(r'^\w+:', uri)):
             # Looks like a URI
             with url_or_file_open(uri, method='HEAD') as response:
-                status_code = response.code()
-                headers = response.headers()
+                # No status code for file: URIs, but would have had exception if not OK
+                status_code = str(response.getcode() or 200)
+                headers = response.headers
         else:
             # Mock up response if we have a local file
             (status_code, headers) = self.head_on_file(uri)
-- 
2.43.0


From a247fa3c5eb2d157deed78ea3ecfc9985eb7fec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:29 +0000
Subject: [PATCH 29/65] fix: compare header values of web resources with
 expected values by meaning in the explorer

---
 resync/explorer.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/resync/explorer.py b/resync/explorer.py
index 3ba99eb..d383e2e 100644
--- a/resync/explorer.py
+++ b/resync/explorer.py
@@ -13,6 +13,7 @@ except ImportError:  # python2
     input = raw_input
 import os.path
 import datetime
+from email.utils import parsedate_to_datetime
 import distutils.dir_util
 import re
 import time
@@ -292,13 +293,33 @@ class Explorer(Client):
                 if header in headers:
                     check_str = ''
                     if (check_headers is not None and header in check_headers):
-                        if (headers[header] == check_headers[header]):
+                        if (self.header_matches(header, headers[header], check_headers[header])):
                             check_str = ' MATCHES EXPECTED VALUE'
                         else:
                             check_str = ' EXPECTED %s' % (
                                 check_headers[header])
                     print("  %s: %s%s" % (header, headers[header], check_str))
 
+    def header_matches(self, header, value, expected):
+        """True if the header value agrees with expected value from a document.
+
+        HTTP header values are always strings, and the format and precision of
+        dates are different from those in ResourceSync documents.
+        """
+        if (header == 'last-modified'):
+            try:
+                return(abs(self.header_time(value) - self.header_time(expected)) < 1.0)
+            except (ValueError, TypeError):
+                return(False)
+        return(str(value) == str(expected))
+
+    def header_time(self, value):
+        """Timestamp from string with either W3C datetime or HTTP date."""
+        try:
+            return(str_to_datetime(value))
+        except ValueError:
+            return(parsedate_to_datetime(value).timestamp())
+
     def head_on_file(self, file):
         """Get fake status code and headers from local file."""
         status_code = '404'
-- 
2.43.0


From 6e0d9395da65aa61705db251d146af6a127154c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:35 +0000
Subject: [PATCH 30/65] fix: handle HTTP protocol errors in downloads like
 other failures

---
 resync/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resync/client.py b/resync/client.py
index 61328af..604c825 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -5,6 +5,7 @@ try:  # python3
     from urllib.parse import urlsplit, urlunsplit, urljoin
 except ImportError:  # pragma: no cover  python2
     from urlparse import urlsplit, urlunsplit, urljoin  # pragma: no cover
+from http.client import HTTPException
 import os.path
 import datetime
 import distutils.dir_util
@@ -524,7 +525,7 @@ class Client(object):
                             return(num_updated)
                         else:
                             raise ClientFatalError(msg)
-                except IOError as e:
+                except (IOError, HTTPException) as e:
                     msg = "Failed to GET %s -- %s" % (resource.uri, str(e))
                     if (self.ignore_failures):
                         self.logger.warning(msg)
-- 
2.43.0


From 42b252660d7c78da542482138b6d6530d64f6fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:14 +0000
Subject: [PATCH 31/65] fix: read documents that up and index links refer to in
 the explorer instead of doing HEAD

---
 resync/explorer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/resync/explorer.py b/resync/explorer.py
index d383e2e..e35c525 100644
--- a/resync/explorer.py
+++ b/resync/explorer.py
@@ -234,7 +234,10 @@ class Explorer(Client):
                 uri = ln_up['href']
                 print("[%s] rel='up' link to %s" % ('u', uri))
                 uri = self.expand_relative_uri(context, uri)
-                options['u'] = Resource(uri)
+                # up from Capability List is Source Description, else Capability List
+                options['u'] = Resource(
+                    uri, capability=('description' if (capability == 'capabilitylist')
+                                     else 'capabilitylist'))
             else:
                 print("WARNING - up link with no href, ignoring")
         ln_index = list.link('index')
@@ -243,7 +246,7 @@ class Explorer(Client):
                 uri = ln_index['href']
                 print("[%s] rel='index' link to %s" % ('i', uri))
                 uri = self.expand_relative_uri(context, uri)
-                options['i'] = Resource(uri)
+                options['i'] = Resource(uri, capability=capability + 'index')
             else:
                 print("WARNING - index link with no href, ignoring")
         # Show listed resources as numbered options
-- 
2.43.0


From 8ebad82e4e6f13c3c1a5a8261fd75a1f48c1fe9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:20 +0000
Subject: [PATCH 32/65] fix: expect a source description at the well-known URI
 in the explorer

---
 resync/explorer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resync/explorer.py b/resync/explorer.py
index e35c525..3b0b366 100644
--- a/resync/explorer.py
+++ b/resync/explorer.py
@@ -82,13 +82,13 @@ class Explorer(Client):
                     starts.append(
                         XResource(
                             well_known, [
-                                'capabilitylist', 'capabilitylistindex']))
+                                'description', 'descriptionindex']))
                 else:
                     starts.append(XResource(uri))
                     starts.append(
                         XResource(
                             well_known, [
-                                'capabilitylist', 'capabilitylistindex']))
+                                'description', 'descriptionindex']))
                 print("Looking for discovery information based on mappings")
         else:
             raise ClientFatalError(
@@ -205,7 +205,7 @@ class Explorer(Client):
             (capability, num_entries))
         if (expected is not None and capability not in expected):
             print("WARNING - expected a %s document" % (','.join(expected)))
-        if (capability not in ['description', 'descriptionoindex', 'capabilitylist',
+        if (capability not in ['description', 'descriptionindex', 'capabilitylist',
                                'resourcelist', 'resourcelistindex', 'changelist', 'changelistindex',
                                'resourcedump', 'resourcedumpindex', 'changedump', 'changedumpindex',
                                'resourcelist-archive', 'resourcedump-archive',
-- 
2.43.0


From cd58bbbf7d8ce5ee0690b1e799616b3a69cb9e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:25 +0000
Subject: [PATCH 33/65] fix: do not count failed downloads as done in
 incremental synchronization

---
 resync/client.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index 604c825..534fec3 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -456,12 +456,10 @@ class Client(object):
             filename = self.mapper.src_to_dst(uri)
             if (resource.change == 'updated'):
                 self.logger.info("updated: %s -> %s" % (uri, filename))
-                self.update_resource(resource, filename, 'updated')
-                num_updated += 1
+                num_updated += self.update_resource(resource, filename, 'updated')
             elif (resource.change == 'created'):
                 self.logger.info("created: %s -> %s" % (uri, filename))
-                self.update_resource(resource, filename, 'created')
-                num_created += 1
+                num_created += self.update_resource(resource, filename, 'created')
             elif (resource.change == 'deleted'):
                 num_deleted += self.delete_resource(
                     resource, filename, allow_deletion)
-- 
2.43.0


From 6aa4e9f5c701c713783c63fa9460b50bbc4f80b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:30 +0000
Subject: [PATCH 34/65] fix: treat download that is cut short as failure

---
 resync/client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resync/client.py b/resync/client.py
index 534fec3..c7380aa 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -508,6 +508,9 @@ class Client(object):
                     with url_or_file_open(resource.uri, timeout=self.timeout) as fh_in:
                         with open(filename, 'wb') as fh_out:
                             shutil.copyfileobj(fh_in, fh_out)
+                        # Bytes of HTTP response still expected (None if not known)
+                        if getattr(fh_in, 'length', None):
+                            raise IOError("response cut short, %d bytes missing" % (fh_in.length))
                     num_updated += 1
                     break
                 except socket.timeout as e:
-- 
2.43.0


From 4bbf1d62babab8fd60ad396e5dbaba4e336678dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:46 +0000
Subject: [PATCH 35/65] fix: retry downloads that time out while connecting

---
 resync/client.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index c7380aa..f215a44 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -513,8 +513,18 @@ class Client(object):
                             raise IOError("response cut short, %d bytes missing" % (fh_in.length))
                     num_updated += 1
                     break
-                except socket.timeout as e:
-                    if try_i < self.tries:
+                except (IOError, HTTPException) as e:
+                    # Timeout while connecting is the reason within an URLError
+                    timed_out = (isinstance(e, socket.timeout)
+                                 or isinstance(getattr(e, 'reason', None), socket.timeout))
+                    if not timed_out:
+                        msg = "Failed to GET %s -- %s" % (resource.uri, str(e))
+                        if (self.ignore_failures):
+                            self.logger.warning(msg)
+                            return(num_updated)
+                        else:
+                            raise ClientFatalError(msg)
+                    elif try_i < self.tries:
                         msg = 'Download timed out, retrying...'
                         self.logger.info(msg)
                         # Continue loop
@@ -526,13 +536,6 @@ class Client(object):
                             return(num_updated)
                         else:
                             raise ClientFatalError(msg)
-                except (IOError, HTTPException) as e:
-                    msg = "Failed to GET %s -- %s" % (resource.uri, str(e))
-                    if (self.ignore_failures):
-                        self.logger.warning(msg)
-                        return(num_updated)
-                    else:
-                        raise ClientFatalError(msg)
             # 2. set timestamp if we have one
             if (resource.timestamp is not None):
                 unixtime = int(resource.timestamp)  # no fractional
-- 
2.43.0


From a4c56988e43ae6016da06c58dcef502c07c7d913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 36/65] fix: report failure to create a local directory as
 download failure

---
 resync/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index f215a44..9a7d081 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -8,7 +8,6 @@ except ImportError:  # pragma: no cover  python2
 from http.client import HTTPException
 import os.path
 import datetime
-import distutils.dir_util
 import re
 import time
 import logging
@@ -502,9 +501,10 @@ class Client(object):
         else:
             # 1. GET
             path = os.path.dirname(filename)
-            distutils.dir_util.mkpath(path)
             for try_i in range(1, self.tries + 1):
                 try:
+                    if (path != ''):
+                        os.makedirs(path, exist_ok=True)
                     with url_or_file_open(resource.uri, timeout=self.timeout) as fh_in:
                         with open(filename, 'wb') as fh_out:
                             shutil.copyfileobj(fh_in, fh_out)
-- 
2.43.0


From b449fcd650829c794ffb72ee7bf6f4b7874f89bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:57 +0000
Subject: [PATCH 37/65] fix: skip files that cannot be read when computing
 hashes in disk scan

---
 resync/resource_list_builder.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/resync/resource_list_builder.py b/resync/resource_list_builder.py
index 32db1ad..fd5e0a4 100644
--- a/resync/resource_list_builder.py
+++ b/resync/resource_list_builder.py
@@ -174,15 +174,15 @@ class ResourceListBuilder():
         try:
             uri = self.mapper.dst_to_src(file)  # might throw MapperError
             file_stat = os.stat(file)
+            timestamp = file_stat.st_mtime  # UTC
+            r = Resource(uri=uri, timestamp=timestamp)
+            if self.set_path:  # add full local path
+                r.path = file
+            if self.set_hashes:  # add any hashes requested
+                Hashes(self.set_hashes, file).set(r)
         except OSError as e:
             self.logger.warning("Ignoring file '%s' (error: %s)" % (file, str(e)))
             return
-        timestamp = file_stat.st_mtime  # UTC
-        r = Resource(uri=uri, timestamp=timestamp)
-        if self.set_path:  # add full local path
-            r.path = file
-        if self.set_hashes:  # add any hashes requested
-            Hashes(self.set_hashes, file).set(r)
         if self.set_length:  # add length
             r.length = file_stat.st_size
         resource_list.add(r)
-- 
2.43.0


From 4bd7bfbe7ab848b45f3fb9145a24e239ae78b093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:02 +0000
Subject: [PATCH 38/65] fix: no dump message in change list output when no dump
 requested

---
 resync/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/client.py b/resync/client.py
index 9a7d081..abbbdab 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -755,7 +755,7 @@ class Client(object):
 
     def write_dump_if_requested(self, resource_list, dump):
         """Write a dump to the file dump."""
-        if (dump is None):
+        if (not dump):
             return
         print("OOPS - FIXME - Wrinting dump to %s not yet implemented" % (dump))
         return(1)
-- 
2.43.0


From 242b47d06e9c86650ba9e2928cd64bfbeef92e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:07 +0000
Subject: [PATCH 39/65] fix: incremental sync with lastmod only change list
 under spec version 1.1

---
 resync/client.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resync/client.py b/resync/client.py
index abbbdab..4f4ecf9 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -394,6 +394,8 @@ class Client(object):
             ts = resource.ts_datetime if resource.ts_datetime is not None else resource.timestamp
             if (ts > self.last_timestamp):
                 self.last_timestamp = ts
+            if (resource.ts_datetime is None and self.spec_version != '1.0'):
+                resource.ts_datetime = ts
         # 4. Check that the change list has authority over URIs listed
         # FIXME - What does authority mean for change list? Here use both the
         # change list URI and, if we used it, the sitemap URI
-- 
2.43.0


From de8373a450015accdc33dfcf0b15e7a49fd08d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:32 +0000
Subject: [PATCH 40/65] fix: open local files with percent or hash signs in
 their names

---
 resync/url_or_file_open.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resync/url_or_file_open.py b/resync/url_or_file_open.py
index 4981fa4..8857665 100644
--- a/resync/url_or_file_open.py
+++ b/resync/url_or_file_open.py
@@ -31,7 +31,8 @@ def url_or_file_open(uri, method=None, timeout=None):
     no timeout is specified then the global default will be used.
     """
     if (not re.match(r'''\w+:''', uri)):
-        uri = 'file:' + uri
+        # local name, not an URI: percent and hash signs have no special meaning
+        uri = 'file:' + uri.replace('%', '%25').replace('#', '%23')
     headers = {'User-Agent': 'resync/' + __version__}
     # Do we need to send an Authorization header?
     # FIXME - This token will be added blindy to all requests. This is insecure
-- 
2.43.0


From 6ce64acfaba0f725a2ac8396a55d3316a685aa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:21 +0000
Subject: [PATCH 41/65] fix: status reported for incremental sync

---
 resync/client.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index 4f4ecf9..a0ed3df 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -437,9 +437,11 @@ class Client(object):
         # either there are no changes or if there are only deletions and
         # we don't allow deletion
         in_sync = ((to_update + to_delete + to_create) == 0)
-        self.log_status(in_sync=in_sync, incremental=True, created=to_create,
+        self.log_status(in_sync=in_sync, incremental=True, audit=True, created=to_create,
                         updated=to_update, deleted=to_delete)
         if (in_sync or ((to_update + to_create) == 0 and not allow_deletion)):
+            if (not in_sync):
+                self.log_status(in_sync=False, incremental=True, to_delete=to_delete)
             self.logger.debug("Completed incremental")
             return
         # 6. Apply changes at same time or after from_timestamp
@@ -467,8 +469,8 @@ class Client(object):
             else:
                 raise ClientError("Unknown change type %s" % (resource.change))
         # 7. Report status and planned actions
-        self.log_status(incremental=True, created=num_created, updated=num_updated,
-                        deleted=num_deleted, to_delete=to_delete)
+        self.log_status(in_sync=False, incremental=True, created=num_created,
+                        updated=num_updated, deleted=num_deleted, to_delete=to_delete)
         # 8. Record last timestamp we have seen
         if (not self.dryrun and self.last_timestamp > 0):
             ClientState().set_state(self.sitemap, self.last_timestamp)
-- 
2.43.0


From bd6d456c5a893f86597b3f2cec96a4c7cf892833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:44 +0000
Subject: [PATCH 42/65] fix: incremental sync missed deletion when starting at
 time of creation

---
 resync/client.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/resync/client.py b/resync/client.py
index a0ed3df..f56cd89 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -19,7 +19,7 @@ from .resource_list import ResourceList
 from .change_list import ChangeList
 from .capability_list import CapabilityList
 from .source_description import SourceDescription
-from .mapper import Mapper
+from .mapper import Mapper, MapperError
 from .sitemap import Sitemap
 from .dump import Dump
 from .resource import Resource
@@ -415,7 +415,18 @@ class Client(object):
             self.logger.info(
                 "Skipped %d changes before %s" %
                 (num_skipped, datetime_to_str(from_timestamp)))
+        last_change = dict((resource.uri, resource) for resource in src_change_list)
         num_dupes = src_change_list.prune_dupes()
+        # A resource created and then deleted has no change left and needs no action
+        # unless there is a local copy from a sync between these two changes
+        uris = set(resource.uri for resource in src_change_list)
+        for uri in last_change:
+            try:
+                if (uri not in uris and os.path.exists(self.mapper.src_to_dst(uri))):
+                    src_change_list.add(last_change[uri])
+                    num_dupes -= 1
+            except MapperError:
+                pass  # no local copy possible
         if (num_dupes > 0):
             self.logger.info("Removed %d prior changes" % (num_dupes))
         # Review and log status before
-- 
2.43.0


From 5f316540805cfc6ad23051ce949d324050c32564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:27 +0000
Subject: [PATCH 43/65] fix: check type of component documents of a split list

---
 resync/list_base_with_index.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index ebffea4..c345226 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -184,10 +184,14 @@ class ListBaseWithIndex(ListBase):
             "Reading sitemap from %s (%d bytes)" %
             (sitemap_uri, self.content_length))
         component = sitemap.parse_xml(fh=fh, sitemapindex=False)
-        # Copy resources into self, check any metadata
+        # Check any metadata, copy resources into self
+        capability = component.md.get('capability', self.capability_name)
+        if (capability != self.capability_name):
+            raise ListBaseIndexError(
+                "Expected sitemap %s listed in sitemap index %s to be a %s document, got %s" %
+                (sitemap_uri, sitemapindex_uri, self.capability_name, capability))
         self.add(component)
         # FIXME - if rel="up" check it goes to correct place
-        # FIXME - check capability
 
     def add_unchecked(self, resource):
         """Add a resource, such as a sitemapindex entry, without type specific checks."""
-- 
2.43.0


From 44daef77041cf767be749f9e13f05e4b3dfc646c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 44/65] fix: open local files with leading or trailing white
 space in their names

---
 resync/url_or_file_open.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resync/url_or_file_open.py b/resync/url_or_file_open.py
index 8857665..ca7a51b 100644
--- a/resync/url_or_file_open.py
+++ b/resync/url_or_file_open.py
@@ -2,6 +2,7 @@
 
 import re
 import time
+from urllib.parse import quote
 from urllib.request import Request, urlopen
 
 from . import __version__
@@ -32,7 +33,8 @@ def url_or_file_open(uri, method=None, timeout=None):
     """
     if (not re.match(r'''\w+:''', uri)):
         # local name, not an URI: percent and hash signs have no special meaning
-        uri = 'file:' + uri.replace('%', '%25').replace('#', '%23')
+        # and white space is not stripped
+        uri = 'file:' + re.sub(r'[%#\s]', lambda m: quote(m.group(0)), uri)
     headers = {'User-Agent': 'resync/' + __version__}
     # Do we need to send an Authorization header?
     # FIXME - This token will be added blindy to all requests. This is insecure
-- 
2.43.0


From 497db572a131578f4b9061a06123b038703e8167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:20 +0000
Subject: [PATCH 45/65] fix: judge authority by location where resource list
 was found

---
 resync/client.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index f56cd89..13e9a3e 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -103,6 +103,7 @@ class Client(object):
         except Exception as e:
             raise ClientError("Can't read source resource list from %s (%s)" %
                               (uri, str(e)))
+        resource_list.uri = uri
         self.logger.debug("Finished reading resource list")
         return(resource_list)
 
@@ -281,12 +282,14 @@ class Client(object):
             return
         # 4. Check that sitemap has authority over URIs listed
         if (not self.noauth):
-            uauth = UrlAuthority(self.sitemap, strict=self.strictauth)
+            # might be at location other than self.sitemap
+            sitemap = src_resource_list.uri
+            uauth = UrlAuthority(sitemap, strict=self.strictauth)
             for resource in src_resource_list:
                 if (not uauth.has_authority_over(resource.uri)):
                     raise ClientFatalError(
                         "Aborting as sitemap (%s) mentions resource at a location it does not have authority over (%s), override with --noauth" %
-                        (self.sitemap, resource.uri))
+                        (sitemap, resource.uri))
         # 5. Grab files to do sync
         delete_msg = (
             ", and delete %d resources" %
-- 
2.43.0


From 7dbb41f60e24811c876334f9cfd2cba5b8e13e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:08 +0000
Subject: [PATCH 46/65] fix: ignore special files such as pipes in disk scan

---
 resync/resource_list_builder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resync/resource_list_builder.py b/resync/resource_list_builder.py
index fd5e0a4..e32f72b 100644
--- a/resync/resource_list_builder.py
+++ b/resync/resource_list_builder.py
@@ -3,6 +3,7 @@
 import os
 import os.path
 import re
+import stat
 import time
 import logging
 from defusedxml.ElementTree import parse
@@ -174,6 +175,9 @@ class ResourceListBuilder():
         try:
             uri = self.mapper.dst_to_src(file)  # might throw MapperError
             file_stat = os.stat(file)
+            if not stat.S_ISREG(file_stat.st_mode):
+                self.logger.warning("Ignoring '%s' (not a regular file)" % (file))
+                return
             timestamp = file_stat.st_mtime  # UTC
             r = Resource(uri=uri, timestamp=timestamp)
             if self.set_path:  # add full local path
-- 
2.43.0


From d8ffd680bd48063139d2e02f150ce64b072ae9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:13 +0000
Subject: [PATCH 47/65] fix: include files just once in disk scan of
 overlapping paths

---
 resync/resource_list_builder.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/resync/resource_list_builder.py b/resync/resource_list_builder.py
index e32f72b..83c02b0 100644
--- a/resync/resource_list_builder.py
+++ b/resync/resource_list_builder.py
@@ -56,6 +56,7 @@ class ResourceListBuilder():
         # Used internally only:
         self.logger = logging.getLogger('resync.resource_list_builder')
         self.compiled_exclude_patterns = []
+        self.scanned = None  # set of files seen in current scan
 
     def add_exclude_patterns(self, exclude_patterns):
         """Add more patterns of files or directories to exclude while building resource_list.
@@ -121,10 +122,15 @@ class ResourceListBuilder():
         # chunks)
         if (resource_list.md_at is None):
             resource_list.md_at = datetime_to_str()
-        # Run for each map in the mappings
-        for path in paths:
-            self.logger.info("Scanning disk from %s" % (path))
-            self.from_disk_add_path(path=path, resource_list=resource_list)
+        # Run for each map in the mappings, include each file just once even if
+        # the paths overlap
+        self.scanned = set()
+        try:
+            for path in paths:
+                self.logger.info("Scanning disk from %s" % (path))
+                self.from_disk_add_path(path=path, resource_list=resource_list)
+        finally:
+            self.scanned = None
         # Set end time
         resource_list.md_completed = datetime_to_str()
         return(resource_list)
@@ -169,6 +175,10 @@ class ResourceListBuilder():
         # get abs filename and also URL
         if (dir is not None):
             file = os.path.join(dir, file)
+        if self.scanned is not None:
+            if file in self.scanned:
+                return
+            self.scanned.add(file)
         if os.path.islink(file) and not self.include_symlinks:
             self.logger.warning("Ignoring symlink '%s'" % (file))
             return
-- 
2.43.0


From f0f6dadca1af7fbe7cf521a2ba580ba8040b9c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:53 +0000
Subject: [PATCH 48/65] fix: metadata and links of list in as_xml_index and
 as_xml_part output

---
 resync/list_base_with_index.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index c345226..57aa43d 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -251,7 +251,7 @@ class ListBaseWithIndex(ListBase):
                 "Request for sitemapindex for list with only %d entries when max_sitemap_entries is set to %s" %
                 (len(self), str(
                     self.max_sitemap_entries)))
-        index = ListBase()
+        index = ListBase(md=self.md.copy(), ln=list(self.ln))
         index.sitemapindex = True
         index.capability_name = self.capability_name
         index.default_capability()
@@ -283,7 +283,8 @@ class ListBaseWithIndex(ListBase):
         stop = start + self.max_sitemap_entries
         if (stop > len(self)):
             stop = len(self)
-        part = ListBase(itertools.islice(self.resources, start, stop))
+        part = ListBase(itertools.islice(self.resources, start, stop),
+                        md=self.md.copy(), ln=list(self.ln))
         part.capability_name = self.capability_name
         part.default_capability()
         part.index = basename
-- 
2.43.0


From 41d608971c3c96806480a95c53b37df7c0827c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:59 +0000
Subject: [PATCH 49/65] fix: refuse request for component sitemap just beyond
 the last

---
 resync/list_base_with_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index 57aa43d..1d2bbe1 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -276,7 +276,7 @@ class ListBaseWithIndex(ListBase):
                 (len(self), str(
                     self.max_sitemap_entries)))
         start = part_number * self.max_sitemap_entries
-        if (start > len(self)):
+        if (start >= len(self)):
             raise ListBaseIndexError(
                 "Request for component sitemap with part_number too high, would start at entry %d yet the list has only %d entries" %
                 (start, len(self)))
-- 
2.43.0


From 977e874e63e11882eab4ac602f14b281051f476d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:41 +0000
Subject: [PATCH 50/65] fix: accept only ASCII digits in datetimes

---
 resync/w3c_datetime.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resync/w3c_datetime.py b/resync/w3c_datetime.py
index e5544d5..558d419 100644
--- a/resync/w3c_datetime.py
+++ b/resync/w3c_datetime.py
@@ -78,7 +78,7 @@ def str_to_datetime(s, context='datetime'):
     if (s == ''):
         raise ValueError('Attempt to set empty %s' % (context))
     # Make a date into a full datetime
-    m = re.match(r"\d\d\d\d(\-\d\d(\-\d\d)?)?$", s)
+    m = re.match(r"\d\d\d\d(\-\d\d(\-\d\d)?)?$", s, re.ASCII)
     if (m is not None):
         if (m.group(1) is None):
             s += '-01-01'
@@ -86,7 +86,7 @@ def str_to_datetime(s, context='datetime'):
             s += '-01'
         s += 'T00:00:00Z'
     # Now have datetime with timezone info
-    m = re.match(r"(.*\d{2}:\d{2}:\d{2})(\.\d+)([^\d].*)?$", s)
+    m = re.match(r"(.*\d{2}:\d{2}:\d{2})(\.\d+)([^\d].*)?$", s, re.ASCII)
     # Chop out fractional seconds if present
     fractional_seconds = 0
     if (m is not None):
@@ -102,7 +102,7 @@ def str_to_datetime(s, context='datetime'):
     # with dt.tzinfo module but this has variation in behavior
     # between python 2.6 and 2.7... so do here for now
     m = re.match(r"(\d\d\d\d\-\d\d\-\d\dT\d\d:\d\d(:\d\d)?)(Z|([+-])"
-                 r"(\d\d):(\d\d))$", s)
+                 r"(\d\d):(\d\d))$", s, re.ASCII)
     if (m is None):
         raise ValueError("Bad datetime format (%s)" % s)
     str = m.group(1) + 'Z'
-- 
2.43.0


From b6df92812a86d5e72854c78b72529adac9de0c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:18 +0000
Subject: [PATCH 51/65] fix: do not lose or damage stored client state if
 interrupted

---
 resync/client_state.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/resync/client_state.py b/resync/client_state.py
index ce30374..737c3a0 100644
--- a/resync/client_state.py
+++ b/resync/client_state.py
@@ -6,6 +6,7 @@ of the last change seen.
 """
 
 import sys
+import os
 import os.path
 import datetime
 import distutils.dir_util
@@ -44,9 +45,12 @@ class ClientState(object):
                 status_section,
                 self.config_site_to_name(site),
                 str(timestamp))
-        with open(self.status_file, 'w') as configfile:
+        # Write new file and then replace so that status is never lost or
+        # left incomplete if we are interrupted
+        new_status_file = self.status_file + '.new'
+        with open(new_status_file, 'w') as configfile:
             parser.write(configfile)
-            configfile.close()
+        os.replace(new_status_file, self.status_file)
 
     def get_state(self, site):
         """Read client status file and return dict."""
-- 
2.43.0


From 438cc35bf8ec2067ddd86d534c4a9bbc0c133f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:20 +0000
Subject: [PATCH 52/65] fix: see unsafe mappings through symbolic links and
 escapes in file URIs

---
 resync/mapper.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/resync/mapper.py b/resync/mapper.py
index da5e4a6..54ab4e1 100644
--- a/resync/mapper.py
+++ b/resync/mapper.py
@@ -4,8 +4,9 @@ import os
 import os.path
 import re
 try:  # python3
-    from urllib.parse import urlparse
+    from urllib.parse import unquote, urlparse
 except ImportError:  # pragma: no cover  python2
+    from urllib import unquote  # pragma: no cover
     from urlparse import urlparse  # pragma: no cover
 import logging
 
@@ -223,10 +224,12 @@ class Map:
             path = self.src_uri
         elif (scheme != 'file'):
             return(False)
-        # Compare whole path components of absolute paths. Trailing slashes
+        else:
+            path = unquote(path)
+        # Compare whole path components of real paths. Trailing slashes
         # have been stripped, so an empty path is the root directory
-        s = os.path.abspath(path or '/')
-        d = os.path.abspath(self.dst_path or '/')
+        s = os.path.realpath(path or '/')
+        d = os.path.realpath(self.dst_path or '/')
         return(os.path.commonpath([s, d]) in (s, d))
 
     def __repr__(self):
-- 
2.43.0


From d8ffb49b66f7da874225ff7e631277263c453cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:54 +0000
Subject: [PATCH 53/65] fix: honour --multifile when writing a change list

---
 resync/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resync/client.py b/resync/client.py
index 13e9a3e..a7f6723 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -735,6 +735,7 @@ class Client(object):
             cl.add_changed_resources(deleted, change='deleted')
             cl.add_changed_resources(created, change='created')
         # 4. Write out change list
+        cl.allow_multifile = self.allow_multifile
         cl.mapper = self.mapper
         cl.pretty_xml = self.pretty_xml
         if (self.max_sitemap_entries is not None):
-- 
2.43.0


From 8c4c5310c49eb5523e5e660e4ed41f595634628d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:59 +0000
Subject: [PATCH 54/65] fix: report capability given twice instead of losing
 the first

---
 resync/client_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resync/client_utils.py b/resync/client_utils.py
index ff43b43..d2229c2 100644
--- a/resync/client_utils.py
+++ b/resync/client_utils.py
@@ -147,6 +147,8 @@ def parse_capabilities(caps_str):
         segs = caps_str.split(',')
         for term in segs:
             (k, v) = term.split('=')
+            if (k in capabilities):
+                raise ValueError("repeated capability %s" % (k))
             capabilities[k] = v
     except ValueError as e:
         raise ClientFatalError(
-- 
2.43.0


From c6e0c8b44aa3adbc7b2de0540eb3d1282cdda7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:12 +0000
Subject: [PATCH 55/65] fix: check_url_authority applies to the parts of an
 index read from the web, not only to local files

---
 resync/list_base_with_index.py | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index 1d2bbe1..b29817b 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -150,22 +150,20 @@ class ListBaseWithIndex(ListBase):
 
         Each component must be a sitemap with the
         """
-        if (sitemapindex_is_file):
-            if (not self.is_file_uri(sitemap_uri)):
-                # Attempt to map URI to local file
-                remote_uri = sitemap_uri
-                sitemap_uri = self.mapper.src_to_dst(remote_uri)
-                self.logger.info(
-                    "Mapped %s to local file %s" %
-                    (remote_uri, sitemap_uri))
-            else:
-                # The individual sitemaps should be at a URL (scheme/server/path)
-                # that the sitemapindex URL can speak authoritatively about
-                if (self.check_url_authority
-                        and not UrlAuthority(sitemapindex_uri).has_authority_over(sitemap_uri)):
-                    raise ListBaseIndexError(
-                        "The sitemapindex (%s) refers to sitemap at a location it does not have authority over (%s)" %
-                        (sitemapindex_uri, sitemap_uri))
+        if (sitemapindex_is_file and not self.is_file_uri(sitemap_uri)):
+            # Attempt to map URI to local file
+            remote_uri = sitemap_uri
+            sitemap_uri = self.mapper.src_to_dst(remote_uri)
+            self.logger.info(
+                "Mapped %s to local file %s" %
+                (remote_uri, sitemap_uri))
+        elif (self.check_url_authority and
+              not UrlAuthority(sitemapindex_uri).has_authority_over(sitemap_uri)):
+            # The individual sitemaps should be at a URL (scheme/server/path)
+            # that the sitemapindex URL can speak authoritatively about
+            raise ListBaseIndexError(
+                "The sitemapindex (%s) refers to sitemap at a location it does not have authority over (%s)" %
+                (sitemapindex_uri, sitemap_uri))
         try:
             fh = url_or_file_open(sitemap_uri)
             self.num_files += 1
-- 
2.43.0


From bee609b8531924ad8352a8b5534ae913eafffa69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:22 +0000
Subject: [PATCH 56/65] fix: requested links were lost when writing a resource
 dump

---
 resync/client.py | 1 +
 resync/dump.py   | 7 ++++---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index a7f6723..489be54 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -696,6 +696,7 @@ class Client(object):
                 outfile = self.default_resource_dump
             self.logger.info("Writing resource dump to %s..." % (dump))
             d = Dump(resources=rl, format=self.dump_format)
+            d.ln = rl.ln
             d.write(basename=outfile)
         else:
             if (outfile is None):
diff --git a/resync/dump.py b/resync/dump.py
index 5d4e77d..2f04a96 100644
--- a/resync/dump.py
+++ b/resync/dump.py
@@ -26,6 +26,7 @@ class Dump(object):
         self.resources = resources
         self.format = ('zip' if (format is None) else format)
         self.compress = compress
+        self.ln = []                   # links to add to every manifest
         self.manifest_class = ResourceDumpManifest  # FIXME
         self.max_size = 100 * 1024 * 1024  # 100MB
         self.max_files = 50000
@@ -73,7 +74,7 @@ class Dump(object):
             allowZip64=True,
             strict_timestamps=False)
         # Write resources first
-        rdm = ResourceDumpManifest(resources=resources)
+        rdm = ResourceDumpManifest(resources=resources, ln=self.ln)
         real_path = {}
         for resource in resources:
             archive_path = self.archive_path(resource.path)
@@ -177,7 +178,7 @@ class Dump(object):
         the correct number of files or the size limit is exceeded, then yields
         that manifest.
         """
-        manifest = self.manifest_class()
+        manifest = self.manifest_class(ln=self.ln)
         manifest_size = 0
         manifest_files = 0
         for resource in self.resources:
@@ -187,7 +188,7 @@ class Dump(object):
             if (manifest_size >= self.max_size or manifest_files >= self.max_files):
                 yield(manifest)
                 # Need to start a new manifest
-                manifest = self.manifest_class()
+                manifest = self.manifest_class(ln=self.ln)
                 manifest_size = 0
                 manifest_files = 0
         if (manifest_files > 0):
-- 
2.43.0


From 6d1dd27ff8ec1220354dd09401a9d1dd8e6dd542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:30 +0000
Subject: [PATCH 57/65] fix: copy of a Resource must not share its links with
 the original

---
 resync/resource.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resync/resource.py b/resync/resource.py
index 85bf637..65d28db 100644
--- a/resync/resource.py
+++ b/resync/resource.py
@@ -1,6 +1,7 @@
 """ResourceSync Resources - information about a web resource and changes."""
 
 import re
+from copy import deepcopy
 from posixpath import basename
 from urllib.parse import urlparse
 
@@ -98,6 +99,8 @@ class Resource(object):
                         'capability', 'ts_at', 'ts_completed', 'ts_from', 'ts_until']:
                 if hasattr(resource, att):
                     setattr(self, att, getattr(resource, att))
+            # links of the copy must not be those of the original
+            self.ln = deepcopy(self.ln)
         # Any arguments will then override
         if (uri is not None):
             self.uri = uri
-- 
2.43.0


From f2a8820c5d80b44bac6fb7b1bede645ab45ee3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:49 +0000
Subject: [PATCH 58/65] fix: write documents in UTF-8 whatever the locale

---
 resync/list_base.py            | 2 +-
 resync/list_base_with_index.py | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/resync/list_base.py b/resync/list_base.py
index daac991..3aae985 100644
--- a/resync/list_base.py
+++ b/resync/list_base.py
@@ -140,7 +140,7 @@ class ListBase(ResourceContainer):
         Must be overridden to support multi-file lists.
         """
         self.default_capability()
-        fh = open(basename, 'w')
+        fh = open(basename, 'w', encoding='utf-8')
         s = self.new_sitemap()
         s.resources_as_xml(self, fh=fh, sitemapindex=self.sitemapindex)
         fh.close()
diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index b29817b..032b339 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -338,7 +338,7 @@ class ListBaseWithIndex(ListBase):
                     raise ListBaseIndexError(
                         "Cannot map sitemap filename to URI (%s)" % str(e))
                 self.logger.info("Writing sitemap %s..." % (file))
-                f = open(file, 'w')
+                f = open(file, 'w', encoding='utf-8')
                 chunk.index = index_uri
                 chunk.md = index.md
                 s.resources_as_xml(chunk, fh=f)
@@ -351,19 +351,19 @@ class ListBaseWithIndex(ListBase):
                 # Get next chunk
                 (chunk, nxt) = self.get_resources_chunk(resources_iter, nxt)
             self.logger.info("Wrote %d sitemaps" % (len(index)))
-            f = open(basename, 'w')
+            f = open(basename, 'w', encoding='utf-8')
             self.logger.info("Writing sitemapindex %s..." % (basename))
             s.resources_as_xml(index, sitemapindex=True, fh=f)
             f.close()
             self.logger.info("Wrote sitemapindex %s" % (basename))
         elif self.sitemapindex:
-            f = open(basename, 'w')
+            f = open(basename, 'w', encoding='utf-8')
             self.logger.info("Writing sitemapindex %s..." % (basename))
             s.resources_as_xml(chunk, sitemapindex=True, fh=f)
             f.close()
             self.logger.info("Wrote sitemapindex %s" % (basename))
         else:
-            f = open(basename, 'w')
+            f = open(basename, 'w', encoding='utf-8')
             self.logger.info("Writing sitemap %s..." % (basename))
             s.resources_as_xml(chunk, fh=f)
             f.close()
-- 
2.43.0


From 70cb5243ee76aa4c301da6487007a073cee9c7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:36 +0000
Subject: [PATCH 59/65] fix: state file is in UTF-8 whatever the locale

---
 resync/client_state.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resync/client_state.py b/resync/client_state.py
index 737c3a0..9d85bfa 100644
--- a/resync/client_state.py
+++ b/resync/client_state.py
@@ -32,7 +32,7 @@ class ClientState(object):
         FIXME - should have some file lock to avoid race
         """
         parser = ConfigParser()
-        parser.read(self.status_file)
+        parser.read(self.status_file, encoding='utf-8')
         status_section = 'incremental'
         if (not parser.has_section(status_section)):
             parser.add_section(status_section)
@@ -48,7 +48,7 @@ class ClientState(object):
         # Write new file and then replace so that status is never lost or
         # left incomplete if we are interrupted
         new_status_file = self.status_file + '.new'
-        with open(new_status_file, 'w') as configfile:
+        with open(new_status_file, 'w', encoding='utf-8') as configfile:
             parser.write(configfile)
         os.replace(new_status_file, self.status_file)
 
@@ -56,7 +56,7 @@ class ClientState(object):
         """Read client status file and return dict."""
         parser = ConfigParser()
         status_section = 'incremental'
-        parser.read(self.status_file)
+        parser.read(self.status_file, encoding='utf-8')
         timestamp = None
         try:
             timestamp = float(
-- 
2.43.0


From 0d3b363b1fba7d5827cb070c5438e5e34374ebdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:12 +0000
Subject: [PATCH 60/65] fix: log file is in UTF-8 whatever the locale

---
 resync/client_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/client_utils.py b/resync/client_utils.py
index d2229c2..52194fb 100644
--- a/resync/client_utils.py
+++ b/resync/client_utils.py
@@ -60,7 +60,7 @@ def init_logging(to_file=False, logfile=None, default_logfile='/tmp/resync.log',
     if to_file:
         if (logfile is None):
             logfile = default_logfile
-        fh = logging.FileHandler(filename=logfile, mode='a')
+        fh = logging.FileHandler(filename=logfile, mode='a', encoding='utf-8')
         fh.setFormatter(formatter)
         fh.setLevel(logging.DEBUG if (eval_mode) else logging.INFO)
 
-- 
2.43.0


From 72258a337be925dd81e34ccc03c7df237451a181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:21 +0000
Subject: [PATCH 61/65] fix: documents on standard output are in UTF-8 whatever
 the locale

---
 resync-build | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resync-build b/resync-build
index 1be0d96..8db51c0 100755
--- a/resync-build
+++ b/resync-build
@@ -161,6 +161,9 @@ def main():
             links.insert(0, {'rel': 'describedby',
                              'href': args.describedby_link})
 
+        # Documents on stdout declare utf-8 so make that true whatever the locale
+        sys.stdout.reconfigure(encoding='utf-8', errors=sys.stdout.errors)
+
         # Finally, do something...
         if (args.write_resourcelist or args.write_resourcedump):
             c.write_resource_list(paths=args.paths,
-- 
2.43.0


From 4bd5dd03ee5d8124242fc7c04b9d5c92061d59bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:00 +0000
Subject: [PATCH 62/65] fix: do not forget requested hash types after a
 synchronization

A client used for several synchronizations dropped hash types that one source
list did not have, and so did not use them with later lists that do.
---
 resync/client.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index 489be54..0bae9df 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -266,10 +266,11 @@ class Client(object):
         if (len(src_resource_list) == 0):
             raise ClientFatalError(
                 "Aborting as there are no resources to sync")
+        set_hashes = None
         if (len(self.hashes) > 0):
-            self.prune_hashes(src_resource_list.hashes(), 'resource')
+            set_hashes = self.prune_hashes(src_resource_list.hashes(), 'resource')
         # 1.b destination resource list mapped back to source URIs
-        rlb = ResourceListBuilder(set_hashes=self.hashes, mapper=self.mapper)
+        rlb = ResourceListBuilder(set_hashes=set_hashes, mapper=self.mapper)
         dst_resource_list = rlb.from_disk()
         # 2. Compare these resource lists respecting any comparison options
         (same, updated, deleted, created) = dst_resource_list.compare(src_resource_list)
@@ -815,14 +816,16 @@ class Client(object):
         return(rl)
 
     def prune_hashes(self, hashes, list_type):
-        """Prune any hashes not in source resource or change list."""
-        discarded = []
-        for hash in sorted(self.hashes):
-            if (hash not in hashes):
-                self.hashes.discard(hash)
-                discarded.append(hash)
+        """Return self.hashes without any not in source resource or change list.
+
+        Does not change self.hashes because the client may be used again, for a
+        list that does have them.
+        """
+        kept = set(hash for hash in self.hashes if hash in hashes)
+        discarded = self.hashes - kept
         self.logger.info("Not calculating %s hash(es) on destination as not present "
                          "in source %s list" % (', '.join(sorted(discarded)), list_type))
+        return(kept)
 
     def log_status(self, in_sync=True, incremental=False, audit=False,
                    same=None, created=0, updated=0, deleted=0, to_delete=0):
-- 
2.43.0


From 727f280e479e356f53d8057fcea3570513d54c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:54 +0000
Subject: [PATCH 63/65] fix: respect --multifile when reading change lists and
 reference lists

A change list in parts was read although that is disabled, and the parts named
by the index of a reference list were taken for the resources listed.
---
 resync/client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index 0bae9df..02d4cc9 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -374,6 +374,7 @@ class Client(object):
         try:
             self.logger.info("Reading change list %s" % (change_list))
             src_change_list = ChangeList(mapper=self.mapper)
+            src_change_list.allow_multifile = self.allow_multifile
             src_change_list.read(uri=change_list)
             self.logger.debug("Finished reading change list")
         except Exception as e:
@@ -787,12 +788,12 @@ class Client(object):
         The name parameter is used just in output messages to say what type
         of resource list is being read.
         """
-        rl = ResourceList()
+        rl = ResourceList(allow_multifile=self.allow_multifile)
         self.logger.info(
             "Reading %s resource list from %s ..." %
             (name, ref_sitemap))
         rl.mapper = self.mapper
-        rl.read(uri=ref_sitemap, index_only=(not self.allow_multifile))
+        rl.read(uri=ref_sitemap)
         num_entries = len(rl.resources)
         self.logger.info(
             "Read %s resource list with %d entries in %d sitemaps" %
-- 
2.43.0


From 80726dab79b9f7eeeef8ade1bca77a76bc5328ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:37 +0000
Subject: [PATCH 64/65] fix: write lists that have no limit of entries per file

---
 resync/list_base_with_index.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index 032b339..babd1bd 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -393,7 +393,8 @@ class ListBaseWithIndex(ListBase):
         chunk.default_capability()
         if (first is not None):
             chunk.add(first)
-        while (len(chunk) < self.max_sitemap_entries):
+        while (self.max_sitemap_entries is None
+                or len(chunk) < self.max_sitemap_entries):
             try:
                 chunk.add(next(resource_iter))
             except StopIteration:
-- 
2.43.0


From 52f30ac5fb57cbb73da37cc40731bdd01d2b691c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:46 +0000
Subject: [PATCH 65/65] fix: refuse lists of capability lists with an empty URI

---
 resync/client_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resync/client_utils.py b/resync/client_utils.py
index 52194fb..0560340 100644
--- a/resync/client_utils.py
+++ b/resync/client_utils.py
@@ -162,6 +162,9 @@ def parse_capability_lists(cls_str):
 
     Input string of the form: uri,uri
     """
+    if ('' in cls_str.split(',')):
+        raise ClientFatalError(
+            "Missing uri in list of capability lists '%s'" % (cls_str))
     return(cls_str.split(','))
 
 
-- 
2.43.0

