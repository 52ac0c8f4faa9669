From e8d9f3bbf2ac56a9e2cd077c593122f08cb537d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:15 +0000
Subject: [PATCH 01/80] fix: load each included document once in project order,
 whatever the include graph

Include cycles recursed without end and a file included by several parents was
loaded as several documents.
---
 src/disseminate/document/document.py | 81 ++++++++++++++--------------
 1 file changed, 40 insertions(+), 41 deletions(-)

diff --git a/src/disseminate/document/document.py b/src/disseminate/document/document.py
index a7efe78..a8c3225 100644
--- a/src/disseminate/document/document.py
+++ b/src/disseminate/document/document.py
@@ -64,7 +64,7 @@ class Document(object):
     _succesfully_loaded = False
 
     def __init__(self, src_filepath, environment, parent_context=None,
-                 level=1):
+                 level=1, held=None):
         logging.debug("Creating document: {}".format(src_filepath))
 
         # Populate attributes
@@ -90,7 +90,7 @@ class Document(object):
                                        parent_context=parent_context)
 
         # Read in the document and load sub-documents
-        self.load(level=level)
+        self.load(level=level, held=held)
 
         # Send the 'document_created' signal
         signals.document_created.emit(document=self)
@@ -343,7 +343,7 @@ class Document(object):
 
         return False
 
-    def load(self, reload=False, level=1):
+    def load(self, reload=False, level=1, held=None):
         """Load or reload the document into the context.
 
         Parameters
@@ -353,6 +353,9 @@ class Document(object):
         level : Optional[int]
             The level of document loaded. Sub-documents are loaded at a higher
             level (>1) than the root document.
+        held : Optional[Set[:obj:`SourcePath <.paths.SourcePath>`]]
+            The src_filepaths of the documents already held in the project.
+            See :meth:`load_subdocuments`.
 
         Returns
         -------
@@ -393,7 +396,7 @@ class Document(object):
         # Load the sub-documents. This is done after processing the string
         # and ast since these may include sub-files, which should be read
         # in before being loaded.
-        document_loaded |= self.load_subdocuments(level=level + 1)
+        document_loaded |= self.load_subdocuments(level=level + 1, held=held)
 
         # Emit a signal if this is the root document and a document (or sub-
         # document) was reloaded
@@ -431,7 +434,7 @@ class Document(object):
 
         return mtime
 
-    def load_subdocuments(self, level=1):
+    def load_subdocuments(self, level=1, held=None):
         """Load the sub-documents listed in the include entries in the
         context.
 
@@ -440,6 +443,12 @@ class Document(object):
         level : Optional[int]
             The level of document loaded. Sub-documents are loaded at a higher
             level (>1) than the root document.
+        held : Optional[Set[:obj:`SourcePath <.paths.SourcePath>`]]
+            The src_filepaths of the documents already held in the project,
+            which includes the documents that are currently being loaded. These
+            are not loaded again.
+            If None, these are the documents of the project that are not held
+            by this document.
 
         Returns
         -------
@@ -448,61 +457,51 @@ class Document(object):
         """
         document_loaded = False
 
-        # Get the root document's src_filepath and the src_filepath for all of
-        # its included subdocuments to make sure we do not load documents
-        # recursively or twice
-        root_document = self.context.get('root_document', None)
-        root_document = root_document() if root_document is not None else None
-
         # Get the build environment for the project
         environment = self.context['environment']
 
-        # Get a dict with all documents in a project
-        root_dict = root_document.documents_dict(document=root_document,
-                                                 only_subdocuments=False,
-                                                 recursive=True)
-
-        # Get a dict with all documents owned by this document. This document
-        # can control those documents, but it cannot control other documents in
-        # the root_dict. This avoids recursion.
-        subs_dict = self.documents_dict(only_subdocuments=False,
-                                        recursive=True)
+        # Get the src_filepaths of the documents that are held by the other
+        # documents of the project to make sure we do not load documents
+        # recursively or twice
+        if held is None:
+            root_document = self.context.get('root_document', None)
+            root_document = (root_document() if root_document is not None else
+                             None)
+            held = set(root_document.documents_dict(recursive=True))
+            held -= set(self.documents_dict(recursive=True))
+        held.add(self.src_filepath)
 
         # Clear the subdocuments ordered dict and add new entries. Old entries
         # will automatically be deleted if the subdocument no longer holds a
         # reference to it.
+        previous_subdocuments = self.subdocuments.copy()
         self.subdocuments.clear()
 
         # Retrieve the file paths of included files in the context
         src_filepaths = self.context.includes
 
         for src_filepath in src_filepaths:
-            # If the src_filepath is the same as this document, do nothing, as
-            # a document shouldn't have itself as a subdocument
-            if src_filepath == self.src_filepath:
+            # If the document is this document or it is held by another
+            # document, do nothing, as a document should only be in a project
+            # once
+            if src_filepath in held:
                 continue
+            held.add(src_filepath)
 
-            # If the document is already loaded and controlled by this
-            # document, copy it to the subdocuments ordered dict
-            elif src_filepath in subs_dict:
-                subdoc = subs_dict[src_filepath]
-                document_loaded |= subdoc.load(level=level + 1)
-
-                if self.src_filepath not in subdoc.subdocuments:
-                    self.subdocuments[src_filepath] = subdoc
-
-            # The document could not be found, at this point. Create it--as
-            # long as it's not controlled by another document--i.e. it's not
-            # already loaded in root_dict
-            elif src_filepath not in root_dict:
+            if src_filepath in previous_subdocuments:
+                # If the document is already loaded and controlled by this
+                # document, copy it to the subdocuments ordered dict
+                subdoc = previous_subdocuments[src_filepath]
+                document_loaded |= subdoc.load(level=level + 1, held=held)
+            else:
+                # The document could not be found, at this point. Create it
                 subdoc = Document(src_filepath=src_filepath,
                                   environment=environment,
                                   parent_context=self.context,
-                                  level=level + 1)
-                self.subdocuments[src_filepath] = subdoc
+                                  level=level + 1,
+                                  held=held)
                 document_loaded |= True
-            else:
-                continue
+            self.subdocuments[src_filepath] = subdoc
 
         # Update the subdocuments mtimes to this document's mtime. The
         # sub-document's mtime must updated so that a load_required is not
-- 
2.43.0


From 32985b699a0500b51ed5d6a32db7113525836815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:53 +0000
Subject: [PATCH 02/80] fix: reload included documents at every depth after an
 ancestor's header changed

Only the direct sub-documents of a changed document were reloaded, so documents
included by these kept the values inherited before the change.
---
 src/disseminate/document/document.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/disseminate/document/document.py b/src/disseminate/document/document.py
index a8c3225..8353b72 100644
--- a/src/disseminate/document/document.py
+++ b/src/disseminate/document/document.py
@@ -389,6 +389,17 @@ class Document(object):
             # Emit the load signal
             signals.document_onload.emit(document=self, context=self.context)
 
+            # This document now includes the entries of the parent_context.
+            # Update the mtime so that it is not older than that of the
+            # parent_context. The sub-documents can then tell that a context
+            # from which they inherit was updated.
+            parent_context = self.context.parent_context
+            parent_mtime = (parent_context.get('mtime')
+                            if parent_context is not None else None)
+            if (parent_mtime is not None and self.mtime is not None and
+                    parent_mtime > self.mtime):
+                self.context['mtime'] = parent_mtime
+
             # The document has been loaded
             self._succesfully_loaded = True
             document_loaded |= True
-- 
2.43.0


From 2e769482a321209c0d5b1ba406f51dfddb8ac620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:26 +0000
Subject: [PATCH 03/80] fix: copy nested lists, sets and dicts of context
 entries

A document that added to a nested entry, like a set of label_resets, changed the
entry of its parent and sibling documents as well.
---
 src/disseminate/context/context.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/disseminate/context/context.py b/src/disseminate/context/context.py
index 36b425d..84aaba6 100644
--- a/src/disseminate/context/context.py
+++ b/src/disseminate/context/context.py
@@ -18,6 +18,27 @@ class ContextException(Exception):
     pass
 
 
+def copy_nested(value):
+    """Replace the dicts, lists and sets nested in a dict or list with copies.
+
+    Parameters
+    ----------
+    value : object
+        The (copied) object whose nested mutables are replaced.
+
+    Returns
+    -------
+    value : object
+        The same object.
+    """
+    items = (value.items() if isinstance(value, dict) else
+             enumerate(value) if isinstance(value, list) else ())
+    for key, item in list(items):
+        if isinstance(item, (dict, list, set)):
+            value[key] = copy_nested(item.copy())
+    return value
+
+
 class BaseContext(dict):
     """A context dict with entries used for rendering target documents.
 
@@ -227,8 +248,8 @@ class BaseContext(dict):
         .. note:: Entries in the parent_context are copied to this context.
                   If the parent_context entry is a mutable, like a list or
                   dict, then a copy of that mutable is created if a 'copy'
-                  method exists for that mutable. However, mutables within
-                  those mutables will still point to the original.
+                  method exists for that mutable. The lists, sets and dicts
+                  within those mutables are copied as well.
 
         Examples
         --------
@@ -405,7 +426,7 @@ class BaseContext(dict):
                 except TypeError:
                     # Other objects, like dicts, have a copy method to create
                     # a shallow copy, but these do not accept keyword arguments
-                    self[key] = change_value.copy()
+                    self[key] = copy_nested(change_value.copy())
                 except AttributeError:
                     # Otherwise reference the value directly, like immutables
                     self[key] = change_value
@@ -434,7 +455,7 @@ class BaseContext(dict):
             if isinstance(original_value, list):
                 change_value = (str_to_list(change_value)
                                 if isinstance(change_value, str) else
-                                list(change_value))
+                                copy_nested(list(change_value)))
                 original_value[0:0] = change_value  # prepend to top
 
             # 3. *sets*. Create a copy from changes
-- 
2.43.0


From aff9709d764b736c866c81cc555a4e1e06d36378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:26 +0000
Subject: [PATCH 04/80] fix: set the navigation labels for the targets of all
 documents

Only the targets of the last document of a project were considered.
---
 src/disseminate/tags/navigation.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/disseminate/tags/navigation.py b/src/disseminate/tags/navigation.py
index ea59049..4c2df73 100644
--- a/src/disseminate/tags/navigation.py
+++ b/src/disseminate/tags/navigation.py
@@ -42,11 +42,7 @@ def set_navigation_labels(root_document):
 
     # Set the prev_labels and next_labels entries in the context of each
     # document
-    for target in targets:
-        if target not in doc_ids_by_target:
-            continue
-        doc_ids = doc_ids_by_target[target]
-
+    for target, doc_ids in doc_ids_by_target.items():
         for document in documents:
             doc_id = document.doc_id
 
-- 
2.43.0


From ecf13d31db9bcfd4e04f9e8ec711b347c975053d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:49 +0000
Subject: [PATCH 05/80] fix: distinguish labels with the same id in different
 documents

Headings, captions, references and tables of contents showed the number, title
or link of the first label with that id in the project.
---
 .../label_manager/label_manager.py            | 24 +++++++++++++++----
 src/disseminate/tags/headings.py              |  3 ++-
 src/disseminate/tags/label.py                 |  9 ++++---
 src/disseminate/tags/ref.py                   |  9 ++++---
 src/disseminate/tags/toc.py                   |  8 ++-----
 5 files changed, 35 insertions(+), 18 deletions(-)

diff --git a/src/disseminate/label_manager/label_manager.py b/src/disseminate/label_manager/label_manager.py
index ba6d983..b076b4f 100644
--- a/src/disseminate/label_manager/label_manager.py
+++ b/src/disseminate/label_manager/label_manager.py
@@ -4,7 +4,7 @@ The manager for labels.
 from collections import OrderedDict
 from threading import Lock
 
-from .types import ContentLabel, DocumentLabel
+from .types import Label, ContentLabel, DocumentLabel
 from .exceptions import LabelNotFound, DuplicateLabel
 from .register_orders import register_orders
 from .register_content_labels import register_content_labels
@@ -210,6 +210,9 @@ class LabelManager(object):
         context : :obj:`DocumentContext <.DocumentContext>`
             The context for the document adding the label. (This may be
             different from the context of the root document, self.root_context)
+            If specified, and the id doesn't include a doc_id, the label of
+            this document takes precedence over those of other documents with
+            the same label_id.
 
         Returns
         -------
@@ -228,6 +231,13 @@ class LabelManager(object):
         # Parse the label_id
         doc_id, label_id = parse_id(id, context=context or self.root_context)
 
+        # Try the label of the document for the given context, if no doc_id is
+        # specified
+        if doc_id is None and context is not None:
+            label_key = (context.get('doc_id'), label_id)
+            if label_key in self.labels:
+                return self.labels[label_key]
+
         # Try the label key
         if (doc_id, label_id) in self.labels:
             return self.labels[(doc_id, label_id)]
@@ -331,7 +341,7 @@ class LabelManager(object):
 
         return returned_labels
 
-    def format_string(self, id, *keys, target=None):
+    def format_string(self, id, *keys, target=None, context=None):
         """Retrieve the formatted label string for a label.
 
         Label format strings are intended to be replaced with the values of the
@@ -340,15 +350,19 @@ class LabelManager(object):
 
         Parameters
         ----------
-        id : str
-            The label of the label ex: 'ch:nmr-introduction'
+        id : Union[str, :obj:`Type[Label] <.label_manager.types.Label>`]
+            The label of the label ex: 'ch:nmr-introduction', or the label
+            itself.
         keys : Optional[List[str], Tuple[str]]
             If specified, use the given keys to find entries in the format_str
             dict. (see :func:`find_entry <disseminate.utils.dict.find_entry>`)
         target : Optional[str]
             If specified, try finding format strings for the given target.
+        context : Optional[:obj:`DocumentContext <.DocumentContext>`]
+            The context for the document that owns the label. (see get_label)
         """
-        label = self.get_label(id=id)
+        label = (id if isinstance(id, Label) else
+                 self.get_label(id=id, context=context))
 
         dicts = []
         if 'label_fmts' in self.root_context:
diff --git a/src/disseminate/tags/headings.py b/src/disseminate/tags/headings.py
index 389e456..c78fb95 100644
--- a/src/disseminate/tags/headings.py
+++ b/src/disseminate/tags/headings.py
@@ -97,7 +97,8 @@ class Heading(Tag, LabelMixin):
             assert self.context.is_valid('label_manager')
 
             label_manager = self.context['label_manager']
-            label = label_manager.get_label(id=self.label_id)
+            label = label_manager.get_label(id=self.label_id,
+                                            context=self.context)
 
             number = label.order[-1] if label.order else None
             number -= 1  # Offset by -1 as the counter is increased
diff --git a/src/disseminate/tags/label.py b/src/disseminate/tags/label.py
index 18f4511..b0affda 100644
--- a/src/disseminate/tags/label.py
+++ b/src/disseminate/tags/label.py
@@ -263,7 +263,8 @@ class LabelTag(Tag):
         context = self.context
 
         if all(i is not None for i in (label_manager, label_id, context)):
-            format_str = label_manager.format_string(id=self.label_id)
+            format_str = label_manager.format_string(id=self.label_id,
+                                                     context=context)
             processed_tag = Tag(name='label', content=format_str,
                                 attributes='', context=context)
             return content_to_str(processed_tag.content)
@@ -278,7 +279,8 @@ class LabelTag(Tag):
 
         if all(i is not None for i in (label_manager, label_id, context)):
             format_str = label_manager.format_string(id=self.label_id,
-                                                     target='.tex')
+                                                     target='.tex',
+                                                     context=context)
 
             # Process the tags and format the contents for tex
             processed_tag = Tag(name='label', content=format_str,
@@ -301,7 +303,8 @@ class LabelTag(Tag):
             # Retrieve the format string for the label
             # Use the 'html' format_str for html and xhtml
             format_str = label_manager.format_string(id=self.label_id,
-                                                     target='.html')
+                                                     target='.html',
+                                                     context=context)
 
             # Process the tags and format the contents for html (html_fmt) or
             # xhtml (xhtml_fmt)
diff --git a/src/disseminate/tags/ref.py b/src/disseminate/tags/ref.py
index c8ec6ec..5af1431 100644
--- a/src/disseminate/tags/ref.py
+++ b/src/disseminate/tags/ref.py
@@ -80,7 +80,10 @@ class Ref(Tag):
         """Retrieve the label for this ref tag."""
         assert self.context.is_valid('label_manager')
         label_manager = self.context['label_manager']
-        if self.label_id is not None:
+        if self.label_id is not None and self.doc_id is not None:
+            # The document that owns the label is known
+            return label_manager.labels[(self.doc_id, self.label_id)]
+        elif self.label_id is not None:
             return label_manager.get_label(id=self.label_id)
         else:
             return None
@@ -272,7 +275,7 @@ class Ref(Tag):
         if all(i is not None for i in (label_manager, label, context)):
             # Retrieve the format string for the reference
             keys = ('ref', *label.kind)
-            format_str = label_manager.format_string(label.id, *keys,
+            format_str = label_manager.format_string(label, *keys,
                                                      target='.tex')
 
             # process the tags and format the contents
@@ -344,7 +347,7 @@ class Ref(Tag):
             # Retrieve the format string for the reference
             # Use the 'html' format_str for html and xhtml
             keys = ('ref', *label.kind)
-            format_str = label_manager.format_string(label.id, *keys,
+            format_str = label_manager.format_string(label, *keys,
                                                      target='.html')
 
             # substitute the link, process the tags and format the contents
diff --git a/src/disseminate/tags/toc.py b/src/disseminate/tags/toc.py
index ac275b7..302bcce 100644
--- a/src/disseminate/tags/toc.py
+++ b/src/disseminate/tags/toc.py
@@ -183,6 +183,7 @@ class Toc(Tag):
             tag_name = 'toc-' + label.kind[-1]
             tag = TocRef(name=tag_name, content=label.id,
                          attributes=self.attributes, context=self.context)
+            tag.doc_id = label.doc_id
             tag.attributes['level'] = level
 
             tags.append(tag)
@@ -204,16 +205,11 @@ class Toc(Tag):
         documents_by_id = (root_document.documents_by_id(recursive=True)
                            if root_document is not None else None)
 
-        # Get the labels
-        labels = self.get_labels()
-        labels_by_id = {label.id: label for label in labels}
-
         for tag in tags:
             listlevel = tag.attributes['level']
-            label = labels_by_id.get(tag.label_id, None)
 
             cache = dict() if cache is None else cache
-            cache['label'] = label
+            cache['label'] = tag.label
             cache['documents_by_id'] = documents_by_id
 
             func = getattr(tag, format_func)
-- 
2.43.0


From 6055f4f5499789fbfd00e2bb1a4a5b9a0e343057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:49 +0000
Subject: [PATCH 06/80] fix: render references in text targets

Ref.default_fmt used a missing label attribute and invalid arguments.
---
 src/disseminate/tags/ref.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/tags/ref.py b/src/disseminate/tags/ref.py
index 5af1431..3b38de9 100644
--- a/src/disseminate/tags/ref.py
+++ b/src/disseminate/tags/ref.py
@@ -227,8 +227,8 @@ class Ref(Tag):
 
         if all(i is not None for i in (label_manager, label, context)):
             # Format the format string keys for a ref
-            keys = ('ref', *label.kinds)
-            format_str = label_manager.format_string(id=self.label.id, *keys)
+            keys = ('ref', *label.kind)
+            format_str = label_manager.format_string(label, *keys)
 
             processed_tag = Tag(name='ref', content=format_str, attributes='',
                                 context=context)
-- 
2.43.0


From 819571b25ae9d9364aa71ca3421fcd6c2809cc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:35 +0000
Subject: [PATCH 07/80] fix: render references to documents without the target
 of the link

The reference is rendered without a link, instead of failing with a
TargetNotFound exception. Projects with tex targets could not be built, unless
all documents had pdf targets.
---
 src/disseminate/tags/ref.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/disseminate/tags/ref.py b/src/disseminate/tags/ref.py
index 3b38de9..9ce3fd6 100644
--- a/src/disseminate/tags/ref.py
+++ b/src/disseminate/tags/ref.py
@@ -159,10 +159,15 @@ class Ref(Tag):
 
         Returns
         -------
-        url_path : str
+        url_path : Union[str, None]
             The url path for the document owning the label referenced by this
             tag.
+            None, if this document or the document owning the label doesn't
+            have the given target.
         """
+        # Avoid circular import
+        from ..document.exceptions import TargetNotFound
+
         context = self.context
         cache = dict() if cache is None else cache
         assert context.is_valid('doc_id')
@@ -187,13 +192,13 @@ class Ref(Tag):
         # In this case, the label and tag documents are different. Return a
         # link to the label's document.
         document = self.document(cache=cache)
-        target_filepath = document.target_filepath(target)
-
-        if target_filepath is None:
+        try:
+            target_filepath = document.target_filepath(target)
+            link = target_filepath.get_url(context=self.context)
+        except TargetNotFound:
+            # One of the documents is not rendered to this target
             return None
 
-        link = target_filepath.get_url(context=self.context)
-
         return link + '#' + label.id if include_anchor else link
 
     def default_fmt(self, content=None, attributes=None, cache=None, **kwargs):
-- 
2.43.0


From 860793a878a60578e70d7e95d84aced1319b3e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:35 +0000
Subject: [PATCH 08/80] fix: do not nest list items below items of a deeper
 level

In html lists and tables of contents, items with a lower level than the first
item of a (sub)list were placed in a sublist of that item.
---
 src/disseminate/formats/xhtml.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/formats/xhtml.py b/src/disseminate/formats/xhtml.py
index e1582cc..32e6dfc 100644
--- a/src/disseminate/formats/xhtml.py
+++ b/src/disseminate/formats/xhtml.py
@@ -272,10 +272,11 @@ def xhtml_list(*elements, attributes=None, listtype='ol', level=1,
 
     # Setup a counter function for list levels. When a new list item is
     # encountered, all sub items will receive the same number so that they're
-    # grouped together.
+    # grouped together. Items with a lower level than the first item are not
+    # sub items.
     def counter(item):
         nonlocal _count
-        if item[0] == listlevel:
+        if item[0] <= listlevel:
             _count += 1
         return _count
 
-- 
2.43.0


From 1675da2d6e26a8c23a39c5ef0680ab01aa733029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:35 +0000
Subject: [PATCH 09/80] fix: reset counters for label_resets entries added by a
 document header

The entry for a kind without default resets is a string, whose characters were
used as the kinds to reset.
---
 src/disseminate/label_manager/register_orders.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/disseminate/label_manager/register_orders.py b/src/disseminate/label_manager/register_orders.py
index aba719c..36fdc8c 100644
--- a/src/disseminate/label_manager/register_orders.py
+++ b/src/disseminate/label_manager/register_orders.py
@@ -4,6 +4,8 @@ Function(s) for setting the label order attributes.
 
 from collections import Counter
 
+from ..utils.string import str_to_list
+
 
 def reorder_and_purge_labels_by_doc_id(labels, root_context):
     """Reorder labels by doc_id and remove labels that refer to a doc_id for
@@ -100,7 +102,11 @@ def register_orders(labels, root_context, **kwargs):
 
             # Reset counters, if specified
             if k in reset_counts:
-                for i in reset_counts[k]:
+                # Values loaded from the header of a document are strings
+                resets = reset_counts[k]
+                resets = (str_to_list(resets) if isinstance(resets, str) else
+                          resets)
+                for i in resets:
                     count[i] = 0
 
             # Append the count
-- 
2.43.0


From 4912375bc31785a485f849b96d82d9bbb2210e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:35 +0000
Subject: [PATCH 10/80] fix: let the targets of a document override an
 inherited target entry

---
 src/disseminate/document/receivers/process_headers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/disseminate/document/receivers/process_headers.py b/src/disseminate/document/receivers/process_headers.py
index 004a2a3..ba511c3 100644
--- a/src/disseminate/document/receivers/process_headers.py
+++ b/src/disseminate/document/receivers/process_headers.py
@@ -68,6 +68,11 @@ def process_headers(context, **kwargs):
     paths = context['paths']
     paths[0:0] = template_paths  # insert at top of list w/o creating new list
 
+    # The document's 'targets' entry takes precedence over an inherited 'target'
+    # entry
+    if 'targets' in header_context and 'target' not in header_context:
+        context.pop('target', None)
+
     # Copy over entries in the template_context, first, then those from the
     # header_context. Since the header_context contains entries from the
     # headers of source files, these take precedence over template values
-- 
2.43.0


From 5de19e5880ae8744146b27e51093fc1ea58df6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:35 +0000
Subject: [PATCH 11/80] fix: identify included documents by their normalized
 path

A file included with and without '..' in its path was loaded as two documents.
---
 src/disseminate/document/document_context.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/document/document_context.py b/src/disseminate/document/document_context.py
index bcc4cab..b730d2b 100644
--- a/src/disseminate/document/document_context.py
+++ b/src/disseminate/document/document_context.py
@@ -1,6 +1,7 @@
 """
 The document context
 """
+import os.path
 import weakref
 from copy import deepcopy
 
@@ -330,12 +331,13 @@ class DocumentContext(BaseContext):
         includes = [path.strip() for path in includes.split('\n')
                     if not path.isspace() and path != '']
 
-        # Reconstruct the paths relative to the context's src_filepath.
+        # Reconstruct the paths relative to the context's src_filepath. These
+        # are normalized so that a document has a unique subpath.
         src_filepath = self['src_filepath']
         subpath = src_filepath.subpath.parent
         project_root = src_filepath.project_root
 
         includes = [SourcePath(project_root=project_root,
-                               subpath=subpath / path)
+                               subpath=os.path.normpath(subpath / path))
                     for path in includes]
         return includes
-- 
2.43.0


From 7ff60df74e626f8e284134d525cf828b63c26a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:53 +0000
Subject: [PATCH 12/80] fix: update the document tree again after a failed
 update

---
 src/disseminate/document/document.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/disseminate/document/document.py b/src/disseminate/document/document.py
index 8353b72..e483e05 100644
--- a/src/disseminate/document/document.py
+++ b/src/disseminate/document/document.py
@@ -63,6 +63,10 @@ class Document(object):
     #: A flag to determine whether the document was successfully loaded
     _succesfully_loaded = False
 
+    #: A flag to determine whether the 'document_tree_updated' signal still has
+    #: to be sent (successfully) for a loaded document tree
+    _tree_update_required = False
+
     def __init__(self, src_filepath, environment, parent_context=None,
                  level=1, held=None):
         logging.debug("Creating document: {}".format(src_filepath))
@@ -411,9 +415,14 @@ class Document(object):
 
         # Emit a signal if this is the root document and a document (or sub-
         # document) was reloaded
-        if document_loaded and level == 1:
+        if level == 1 and (document_loaded or self._tree_update_required):
             root_document = self.context.root_document
+
+            # The signal's receivers may raise an exception. In this case, the
+            # signal has to be sent again with the next load
+            self._tree_update_required = True
             signals.document_tree_updated.emit(root_document=root_document)
+            self._tree_update_required = False
 
         return document_loaded
 
-- 
2.43.0


From 537375a0ba921249ca65e9dcebc42f5b99dd0044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:30 +0000
Subject: [PATCH 13/80] fix: remove the reference of a weakattr when None is
 assigned

---
 src/disseminate/utils/classes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/utils/classes.py b/src/disseminate/utils/classes.py
index 5738162..37ce662 100644
--- a/src/disseminate/utils/classes.py
+++ b/src/disseminate/utils/classes.py
@@ -135,10 +135,11 @@ class weakattr(object):
         return value() if callable(value) else None
 
     def __set__(self, obj, value):
-        if value is None:  # do nothing is a value of None is assigned
-            return
         weakref_dict = obj.__dict__.setdefault('__weakrefattrs__', dict())
         attrname = self.attrname(obj)
+        if value is None:  # remove the reference if None is assigned
+            weakref_dict.pop(attrname, None)
+            return
         weakref_dict[attrname] = weakref.ref(value)
 
     def __delete__(self, obj):
-- 
2.43.0


From 2c0adfd116c3b222bcfa73d2c9104731280d5207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:30 +0000
Subject: [PATCH 14/80] fix: keep inherited header entries over those of an
 inherited template

---
 src/disseminate/document/receivers/process_headers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/document/receivers/process_headers.py b/src/disseminate/document/receivers/process_headers.py
index ba511c3..bbf5f59 100644
--- a/src/disseminate/document/receivers/process_headers.py
+++ b/src/disseminate/document/receivers/process_headers.py
@@ -75,8 +75,11 @@ def process_headers(context, **kwargs):
 
     # Copy over entries in the template_context, first, then those from the
     # header_context. Since the header_context contains entries from the
-    # headers of source files, these take precedence over template values
-    context.match_update(template_context, overwrite=True)
+    # headers of source files, these take precedence over template values.
+    # Sub-documents without their own template inherit the entries of their
+    # parent's template, which may be overridden by the parent's header
+    if context.get('is_root_document', True) or 'template' in header_context:
+        context.match_update(template_context, overwrite=True)
     context.match_update(header_context, overwrite=True)
 
 
-- 
2.43.0


From 023633f5fe70450111daaf7ea5f989adc4d394fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:56 +0000
Subject: [PATCH 15/80] fix: let the render target override a target entry of
 the context

---
 src/disseminate/builders/jinja_render.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/disseminate/builders/jinja_render.py b/src/disseminate/builders/jinja_render.py
index 996ec2b..2641c6c 100644
--- a/src/disseminate/builders/jinja_render.py
+++ b/src/disseminate/builders/jinja_render.py
@@ -21,11 +21,10 @@ def run(template, context, outfilepath, target):
     """Run the command with the given arguments."""
     # rendered_string = asyncio.run(template.render_async(**context,
     #                               outfilepath=outfilepath, target=target))
-    if 'target' in context:
-        rendered_string = template.render(**context, outfilepath=outfilepath)
-    else:
-        rendered_string = template.render(**context, outfilepath=outfilepath,
-                                          target=target)
+    # The render target and outfilepath take precedence over entries in the
+    # context, like a 'target' header entry.
+    rendered_string = template.render({**context, 'target': target,
+                                       'outfilepath': outfilepath})
     outfilepath.write_text(rendered_string)
     return outfilepath
 
@@ -246,13 +245,11 @@ class JinjaRender(Builder):
 
         logging.debug("Rendering '{}' with Jinja2 "
                       "'{}'".format(outfilepath, template))
-        if 'target' in context:
-            rendered_string = template.render(**context,
-                                              outfilepath=outfilepath)
-        else:
-            rendered_string = template.render(**context,
-                                              target=self.render_ext,
-                                              outfilepath=outfilepath)
+        # The render target and outfilepath take precedence over entries in
+        # the context, like a 'target' header entry.
+        rendered_string = template.render({**context,
+                                           'target': self.render_ext,
+                                           'outfilepath': outfilepath})
 
         outfilepath.write_text(rendered_string)
         self.build_needed(reset=True)
-- 
2.43.0


From 7dfa104c3ab4037c7892cde6136031a25d422727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:01 +0000
Subject: [PATCH 16/80] fix: do not share build decisions between outputs built
 from the same inputs

---
 src/disseminate/builders/deciders/md5decider.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/disseminate/builders/deciders/md5decider.py b/src/disseminate/builders/deciders/md5decider.py
index efca2ad..9f1157c 100644
--- a/src/disseminate/builders/deciders/md5decider.py
+++ b/src/disseminate/builders/deciders/md5decider.py
@@ -45,7 +45,12 @@ class Md5Decision(Decision):
     def calculate_hash(inputs, output):
         """Calculate the md5 hash for the inputs, output and args."""
         sorted_inputs = sorted(inputs, key=str)
-        hash_input = hash_items(*sorted_inputs)
+
+        # The path of the output is part of the key, since different outputs
+        # may be built from the same inputs. The inputs are already sorted, and
+        # their order is kept so that swapping the contents of two files
+        # changes the hash.
+        hash_input = hash_items(*sorted_inputs, str(output), sort=False)
         hash_output = hash_items(output)
 
         return (hash_input, hash_output)
-- 
2.43.0


From ce85f95a0a9563fdd86e2398a794e051f9841974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:01 +0000
Subject: [PATCH 17/80] fix: read the output of build commands while waiting
 and stop timed out commands

---
 src/disseminate/builders/executor.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/builders/executor.py b/src/disseminate/builders/executor.py
index 4c0924d..1724ff4 100644
--- a/src/disseminate/builders/executor.py
+++ b/src/disseminate/builders/executor.py
@@ -19,8 +19,15 @@ def run(timeout, **kwargs):
     """Run the command with the given arguments."""
     popen = subprocess.Popen(**kwargs, stdout=subprocess.PIPE,
                              stderr=subprocess.PIPE, bufsize=4096,)
-    popen.wait(timeout=timeout)
-    stdout, stderr = popen.communicate()
+    try:
+        # Read the output while waiting. Otherwise the process may block on a
+        # full pipe.
+        stdout, stderr = popen.communicate(timeout=timeout)
+    except subprocess.TimeoutExpired:
+        # Do not leave a running process that may write its output later
+        popen.kill()
+        popen.communicate()
+        raise
     return PopenResult(returncode=popen.returncode,
                        args=popen.args,
                        stdout=stdout.decode('latin1'),
-- 
2.43.0


From 58b9d67b8e9476b453ff33d6f5d26202662b07dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:34 +0000
Subject: [PATCH 18/80] fix: render a document again when other files of its
 project change

---
 src/disseminate/builders/builder.py           | 11 +++-
 src/disseminate/builders/jinja_render.py      | 58 +++++++++++++++++++
 .../target_builders/target_builder.py         |  4 ++
 3 files changed, 70 insertions(+), 3 deletions(-)

diff --git a/src/disseminate/builders/builder.py b/src/disseminate/builders/builder.py
index 9477a7f..7261dfc 100644
--- a/src/disseminate/builders/builder.py
+++ b/src/disseminate/builders/builder.py
@@ -279,12 +279,17 @@ class Builder(metaclass=ABCMeta):
         if self.decision is None:
             decider = self.env.decider
             self.decision = decider.decision
+        return self.decision.build_needed(inputs=self.decision_inputs,
+                                          output=self.outfilepath,
+                                          reset=reset)
+
+    @property
+    def decision_inputs(self):
+        """The inputs to decide whether a build is needed"""
         inputs = list(self.parameters)
         if self.action:
             inputs.append(self.action)
-        return self.decision.build_needed(inputs=inputs,
-                                          output=self.outfilepath,
-                                          reset=reset)
+        return inputs
 
     @property
     def parameters(self):
diff --git a/src/disseminate/builders/jinja_render.py b/src/disseminate/builders/jinja_render.py
index 2641c6c..77ff593 100644
--- a/src/disseminate/builders/jinja_render.py
+++ b/src/disseminate/builders/jinja_render.py
@@ -10,6 +10,7 @@ import jinja2.meta
 from .builder import Builder
 from .exceptions import BuildError
 from .utils import generate_mock_parameters, generate_outfilepath
+from .deciders.utils_hash import hash_items
 from ..paths import SourcePath
 from ..paths.utils import find_file
 from ..utils.list import uniq
@@ -86,6 +87,12 @@ class JinjaRender(Builder):
     render_ext : str
         The extension for the rendered file. Either this or the outfilepath
         must be specified. ex: '.tex'
+
+    Attributes
+    ----------
+    render_project : bool
+        If True, the rendered file depends on the files of the context's
+        project--i.e. the documents and the files used by tags.
     """
 
     available = True
@@ -99,6 +106,7 @@ class JinjaRender(Builder):
     infilepath_ext = '.render'  # dummy extension for find_builder_cls
 
     render_ext = None
+    render_project = False
 
     def __init__(self, env, context, render_ext=None, **kwargs):
         super().__init__(env, **kwargs)
@@ -190,6 +198,17 @@ class JinjaRender(Builder):
     def parameters(self, value):
         self._parameters = value
 
+    @property
+    def decision_inputs(self):
+        inputs = super().decision_inputs
+        context = self.context
+
+        # Add a hash for the files of the project used in the render
+        if self.render_project and context is not None:
+            filepaths = project_filepaths(context)
+            inputs.append(hash_items(*filepaths, sort=False))
+        return inputs
+
     @property
     def outfilepath(self):
         outfilepath = self._outfilepath
@@ -328,6 +347,45 @@ def template_filepaths(template, environment):
     return filenames
 
 
+def project_filepaths(context):
+    """Return a list of project files that a render depends on.
+
+    These include the source files for all documents in the project, since
+    labels, references, navigation links, tables of contents and inherited
+    header entries depend on other documents, and the files used by the tags
+    in the context, like images.
+
+    Parameters
+    ----------
+    context : :obj:`.context.BaseContext`
+        The context for the document to render.
+
+    Returns
+    -------
+    filepaths : List[:obj:`pathlib.Path`]
+        A list of paths for existing files.
+    """
+    filepaths = []
+
+    # Add the source files of the documents
+    root_document = getattr(context, 'root_document', None)
+    if root_document is not None:
+        docs = root_document.documents_list(only_subdocuments=False,
+                                            recursive=True)
+        filepaths += [doc.src_filepath for doc in docs]
+
+    # Add the files for tags
+    for tag in context.values():
+        if not hasattr(tag, 'flatten'):
+            continue
+        filepaths += [t.content_as_filepath()
+                      for t in tag.flatten(filter_tags=True)
+                      if hasattr(t, 'content_as_filepath')]
+
+    return [filepath for filepath in filepaths
+            if filepath is not None and filepath.is_file()]
+
+
 def context_filepaths(template_filepaths):
     """Return a list of context modifier files (ex: context.txt) from template
     filepaths.
diff --git a/src/disseminate/builders/target_builders/target_builder.py b/src/disseminate/builders/target_builders/target_builder.py
index 1b988cc..f51c473 100644
--- a/src/disseminate/builders/target_builders/target_builder.py
+++ b/src/disseminate/builders/target_builders/target_builder.py
@@ -123,6 +123,10 @@ class TargetBuilder(SequentialBuilder):
             render_builder = JinjaRender(env, context, outfilepath=outfilepath,
                                          render_ext=self.outfilepath_ext,
                                          **kwargs)
+            # The rendered document depends on other documents and files in
+            # the project
+            render_builder.render_project = True
+
             # Add ref label dependencies
             render_builder.parameters_from_signals = 'ref_label_dependencies'
 
-- 
2.43.0


From cac1ae588221cb88bc5013150943422e33c69e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:34 +0000
Subject: [PATCH 19/80] fix: run a build command again when its inputs changed
 since it was started

---
 src/disseminate/builders/builder.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/disseminate/builders/builder.py b/src/disseminate/builders/builder.py
index 7261dfc..f717eac 100644
--- a/src/disseminate/builders/builder.py
+++ b/src/disseminate/builders/builder.py
@@ -10,6 +10,7 @@ from distutils.spawn import find_executable
 import pathvalidate
 
 from .executor import executor, run, runtime_error, runtime_success
+from .deciders.utils_hash import hash_items
 from .utils import generate_outfilepath, generate_mock_parameters
 from .exceptions import BuildError
 from ..signals import signal
@@ -102,6 +103,8 @@ class Builder(metaclass=ABCMeta):
     future : Union[:obj:`concurrent.futures.Future`, None, str]
         The future object for the process for the externally run program.
         The future can also be None, if a process hasn't been run.
+    future_inputs : Optional[str]
+        The hash of the inputs when the process for the future was started.
     """
     env = None
     action = None
@@ -125,6 +128,7 @@ class Builder(metaclass=ABCMeta):
     parameters_from_signals = None
 
     future = None
+    future_inputs = None
     timeout = settings.default_timeout
 
     _active = dict()
@@ -244,6 +248,12 @@ class Builder(metaclass=ABCMeta):
                 # The process isn't done.
                 return "building"
 
+            if self.future_inputs != self.hash_inputs():
+                # The inputs were changed since the process was started. A new
+                # build is needed.
+                self.future = None
+                return "ready"
+
             if self.future.cancelled():
                 return "cancelled"
 
@@ -265,6 +275,8 @@ class Builder(metaclass=ABCMeta):
 
                 # It was a successful run and the generated file exists
                 else:
+                    # Another build, when needed, is run in a new process
+                    self.future = None
                     self.build_needed(reset=True)
                     return "done"
 
@@ -291,6 +303,12 @@ class Builder(metaclass=ABCMeta):
             inputs.append(self.action)
         return inputs
 
+    def hash_inputs(self):
+        """A hash for the current contents of the inputs"""
+        return hash_items(*[i for i in self.decision_inputs
+                            if not isinstance(i, pathlib.Path) or i.exists()],
+                          sort=False)
+
     @property
     def parameters(self):
         """The list of input parameters, including filepaths, needed for the
@@ -451,6 +469,7 @@ class Builder(metaclass=ABCMeta):
                                                        " ".join(args)))
 
             # add the process to the executor pool
+            self.future_inputs = self.hash_inputs()
             future = executor.submit(run, args=args, timeout=self.timeout)
             self.future = future
 
-- 
2.43.0


From b73dfdf9a48e2c6d8f2a29241159eb82a33b4bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:39 +0000
Subject: [PATCH 20/80] fix: add image files to the current target builder of a
 document

---
 src/disseminate/tags/img.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/disseminate/tags/img.py b/src/disseminate/tags/img.py
index 2a14a61..5b30bc7 100644
--- a/src/disseminate/tags/img.py
+++ b/src/disseminate/tags/img.py
@@ -2,6 +2,7 @@
 Image tags
 """
 import pathlib
+import weakref
 
 from .tag import Tag, TagError
 from .utils import xhtml_percentwidth, tex_percentwidth
@@ -47,10 +48,12 @@ class Img(Tag):
     in_ext = None
     _infilepath = None
     _outfilepaths = None
+    _target_builders = None
 
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
         self._outfilepaths = dict()
+        self._target_builders = dict()
 
     def content_as_filepath(self, content=None, context=None):
         """Returns a filepath from the content, if it's a valid filepath,
@@ -117,8 +120,15 @@ class Img(Tag):
         # See if a cached path exists already. This can only be done if the
         # content, attributes and context aren't specified because the
         # values of this tag will be used for these parameters.
+        # The cached path is only valid for the target builder to which the
+        # file was added--the target builders of a document may be replaced.
         if all(i is None for i in (content, attributes, context)):
-            if target in self._outfilepaths:
+            builders = (self.context or dict()).get('builders') or dict()
+            builder = builders.get(target)
+            cached_builder = self._target_builders.get(target, lambda: None)
+
+            if (target in self._outfilepaths and
+                    cached_builder() is builder):
                 return self._outfilepaths[target]
             else:
                 can_cache = True
@@ -152,6 +162,8 @@ class Img(Tag):
         # Cache the outfilepath, if possible
         if can_cache:
             self._outfilepaths[target] = outfilepath
+            if builder is not None:
+                self._target_builders[target] = weakref.ref(builder)
 
         return outfilepath
 
-- 
2.43.0


From 0cafcc8144ce3418beb3692f7e9517d125820065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:39 +0000
Subject: [PATCH 21/80] fix: keep the builders for the dependencies of a target

---
 src/disseminate/builders/target_builders/target_builder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/disseminate/builders/target_builders/target_builder.py b/src/disseminate/builders/target_builders/target_builder.py
index f51c473..df00099 100644
--- a/src/disseminate/builders/target_builders/target_builder.py
+++ b/src/disseminate/builders/target_builders/target_builder.py
@@ -115,6 +115,10 @@ class TargetBuilder(SequentialBuilder):
         # Add a parallel builder for dependencies
         if self.add_parallel_builder:
             parallel_builder = ParallelBuilder(env=env, **kwargs)
+
+            # Keep the builders of the dependencies, since these may have to
+            # be built again
+            parallel_builder.clear_done = False
             subbuilders.append(parallel_builder)
             self._parallel_builder = parallel_builder
 
-- 
2.43.0


From ed6ab064e65a791463b5df68016b8b5476eebda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:39 +0000
Subject: [PATCH 22/80] fix: load the documents before collecting their target
 builders

---
 src/disseminate/builders/environment.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/disseminate/builders/environment.py b/src/disseminate/builders/environment.py
index 007d566..91c6f8b 100644
--- a/src/disseminate/builders/environment.py
+++ b/src/disseminate/builders/environment.py
@@ -214,6 +214,9 @@ class Environment(object):
         root_builder = ParallelBuilder(env=self)
         root_builder.clear_done = True
 
+        # Make sure the documents and their target builders are current
+        self.root_document.load()
+
         # Get all of the documents
         subbuilders = self.collect_target_builders(document=document)
         root_builder.subbuilders += subbuilders
-- 
2.43.0


From 19337162294b76fec171f32a89b75ee25361eb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:54 +0000
Subject: [PATCH 23/80] fix: need a build when a file is removed while its hash
 is calculated

---
 src/disseminate/builders/deciders/md5decider.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/builders/deciders/md5decider.py b/src/disseminate/builders/deciders/md5decider.py
index 9f1157c..1b88001 100644
--- a/src/disseminate/builders/deciders/md5decider.py
+++ b/src/disseminate/builders/deciders/md5decider.py
@@ -23,8 +23,13 @@ class Md5Decision(Decision):
         assert db is not None
 
         # Check to see there's an existing hash
-        input_hash, output_hash = self.calculate_hash(inputs=inputs,
-                                                      output=output)
+        try:
+            input_hash, output_hash = self.calculate_hash(inputs=inputs,
+                                                          output=output)
+        except FileNotFoundError:
+            # A file was removed since its existence was tested, like the
+            # output of a build command that is running
+            return True
 
         # Check the database hash (input_hash is the key, output_hash is the
         # value)
-- 
2.43.0


From 8f20451ba8ef3a4341f3cc696b08809988a8ab1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:54 +0000
Subject: [PATCH 24/80] fix: forget a finished build command when its output is
 up to date

---
 src/disseminate/builders/builder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/disseminate/builders/builder.py b/src/disseminate/builders/builder.py
index f717eac..3fff36d 100644
--- a/src/disseminate/builders/builder.py
+++ b/src/disseminate/builders/builder.py
@@ -239,6 +239,9 @@ class Builder(metaclass=ABCMeta):
         # If a build is not needed or the process is done, then the build is
         # done
         if not self.build_needed():
+            if self.future is not None and self.future.done():
+                # Another build, when needed, is run in a new process
+                self.future = None
             return "done"
 
         # If a process is open (self.open is not None), then a build is
-- 
2.43.0


From 58ef3c5f4d9a59804fe9565ca4e51227c406a5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:08 +0000
Subject: [PATCH 25/80] fix: keep the finished builders that follow an
 unfinished one in a sequence

---
 .../builders/composite_builders/composite_builder.py           | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/disseminate/builders/composite_builders/composite_builder.py b/src/disseminate/builders/composite_builders/composite_builder.py
index 9863552..da03dbc 100644
--- a/src/disseminate/builders/composite_builders/composite_builder.py
+++ b/src/disseminate/builders/composite_builders/composite_builder.py
@@ -109,6 +109,9 @@ class CompositeBuilder(Builder):
             for subbuilder in list(self.subbuilders):
                 if subbuilder.status == 'done':
                     self.subbuilders.remove(subbuilder)
+                elif not self.parallel:
+                    # The next subbuilders may change once this one is done
+                    break
 
         return status
 
-- 
2.43.0


From 7c3081690b8c7f4f2ba3ec695e3582def5ac42ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:07 +0000
Subject: [PATCH 26/80] fix: only end headers at lines of dashes, including
 those of empty headers

---
 src/disseminate/context/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/disseminate/context/utils.py b/src/disseminate/context/utils.py
index 72d2033..0a5cc26 100644
--- a/src/disseminate/context/utils.py
+++ b/src/disseminate/context/utils.py
@@ -4,9 +4,10 @@ import regex
 from ..utils.string import str_to_dict
 
 
-re_header_block = regex.compile(r'^[\s\n]*(-{3,})\s*\n'
-                                r'(?P<header>.+?)'
-                                r'(\n\s*\g<1>)\n?', regex.DOTALL)
+re_header_block = regex.compile(r'^\s*(-{3,})[^\S\n]*\n'
+                                r'(?P<header>.*?)'
+                                r'^[^\S\n]*\g<1>-*[^\S\n]*(?:\n|\Z)',
+                                regex.DOTALL | regex.MULTILINE)
 
 
 def find_header_entries(context):
-- 
2.43.0


From bf2460e63563f778ebbca7b947d6496a08617780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:07 +0000
Subject: [PATCH 27/80] fix: do not cut the text of less indented lines in
 header entries

---
 src/disseminate/utils/string.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disseminate/utils/string.py b/src/disseminate/utils/string.py
index f419b53..ad5c7f7 100644
--- a/src/disseminate/utils/string.py
+++ b/src/disseminate/utils/string.py
@@ -377,7 +377,8 @@ def str_to_dict(string, strip_quotes=True):
 
         # Workup the line. Strip leading spaces from the line.
         if current_spaces is not None:
-            line = line[current_spaces:]
+            spaces = len(line) - len(line.lstrip())
+            line = line[min(current_spaces, spaces):]
 
         # Replace escaped colons ('\:') with colons (':')
         line = line.replace("\\:", ":")
-- 
2.43.0


From 3862329a46601b5240608855db970474bd2e6d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:07 +0000
Subject: [PATCH 28/80] fix: do not repeat the spaces of blank lines when
 stripping quotes

---
 src/disseminate/utils/string.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disseminate/utils/string.py b/src/disseminate/utils/string.py
index ad5c7f7..0548e1c 100644
--- a/src/disseminate/utils/string.py
+++ b/src/disseminate/utils/string.py
@@ -199,7 +199,8 @@ def strip_end_quotes(s):
         return '\n'.join(map(strip_end_quotes, s.splitlines()))
 
     for char in "\'\"":
-        if s.count(char) % 2 == 0:  # even number of quotes
+        count = s.count(char)
+        if count > 0 and count % 2 == 0:  # even number of quotes
             pieces = s.split(char)
             if pieces[0].strip() == '' and pieces[-1].strip() == '':
                 return ''.join((pieces[0], char.join(pieces[1:-1]),
-- 
2.43.0


From 025e4367553956c396f7a105db9aec42ec8ab850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:41 +0000
Subject: [PATCH 29/80] fix: keep settings whose changes cannot be converted to
 their type

---
 src/disseminate/context/context.py | 35 +++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/disseminate/context/context.py b/src/disseminate/context/context.py
index 84aaba6..7117fb6 100644
--- a/src/disseminate/context/context.py
+++ b/src/disseminate/context/context.py
@@ -441,6 +441,24 @@ class BaseContext(dict):
             # value's type
             original_value = self[key]
 
+            # Convert the changes for lists, sets and dicts. Values that cannot
+            # be converted do not change the original value
+            try:
+                if isinstance(original_value, list):
+                    change_value = (str_to_list(change_value)
+                                    if isinstance(change_value, str) else
+                                    copy_nested(list(change_value)))
+                elif isinstance(original_value, set):
+                    change_value = set(str_to_list(change_value)
+                                       if isinstance(change_value, str) else
+                                       change_value)
+                elif isinstance(original_value, dict):
+                    change_value = (str_to_dict(change_value)
+                                    if isinstance(change_value, str) else
+                                    dict(change_value))
+            except (TypeError, ValueError):
+                continue
+
             # Clear the original_value if this value should be replaced
             if key in getattr(self, 'replace', set()):
                 try:
@@ -453,23 +471,14 @@ class BaseContext(dict):
 
             # 2. *lists*. Create a copy from changes
             if isinstance(original_value, list):
-                change_value = (str_to_list(change_value)
-                                if isinstance(change_value, str) else
-                                copy_nested(list(change_value)))
                 original_value[0:0] = change_value  # prepend to top
 
             # 3. *sets*. Create a copy from changes
             elif isinstance(original_value, set):
-                change_value = (str_to_list(change_value)
-                                if isinstance(change_value, str) else
-                                list(change_value))
-                original_value |= set(change_value)
+                original_value |= change_value
 
             # 4. *dicts*. Create a copy from changes
             elif isinstance(original_value, dict):
-                change_value = (str_to_dict(change_value)
-                                if isinstance(change_value, str) else
-                                dict(change_value))
                 BaseContext.match_update(self=original_value,
                                          changes=change_value,
                                          level=level + 1)
@@ -493,7 +502,7 @@ class BaseContext(dict):
             # For immutable types, like ints, covert strings into their
             # proper format and replace the original's value
             elif isinstance(original_value, bool):
-                change_value_lower = change_value.lower().strip()
+                change_value_lower = str(change_value).lower().strip()
                 if change_value_lower == 'false':
                     self[key] = False
                 elif change_value_lower == 'true':
@@ -502,13 +511,13 @@ class BaseContext(dict):
             elif isinstance(original_value, int):
                 try:
                     self[key] = int(change_value)
-                except ValueError:
+                except (TypeError, ValueError):
                     pass
 
             elif isinstance(original_value, float):
                 try:
                     self[key] = float(change_value)
-                except ValueError:
+                except (TypeError, ValueError):
                     pass
 
             # Otherwise, if the original value's type and change value type
-- 
2.43.0


From d95b6a2d8a29b6854c2d43c8e2b82ec456624a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:29 +0000
Subject: [PATCH 30/80] fix: read the numbers of package versions with a suffix

A package like 'name==1.0.post1' made the check fail with a ValueError.
---
 src/disseminate/checkers/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disseminate/checkers/utils.py b/src/disseminate/checkers/utils.py
index d8744a1..a27dd12 100644
--- a/src/disseminate/checkers/utils.py
+++ b/src/disseminate/checkers/utils.py
@@ -37,7 +37,7 @@ def name_and_version(string):
 
     m = re.search(r'([\w\.\-\_]+)'  # match package name
                   r'\s*(==|>=|<=|>|<|!=)?\s*'  # operator
-                  r'([\d\.]+)?',  # version number
+                  r'(\d+(?:\.\d+)*)?',  # version number
                   string)
 
     if m is None:
-- 
2.43.0


From fa16322076987f1a69cdeddc495c9f76643c160c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:29 +0000
Subject: [PATCH 31/80] fix: match installed python packages by their full name

A missing package 'click' was reported as installed if 'click-plugins' was, and
could be checked against the version of another package.
---
 src/disseminate/checkers/python.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/disseminate/checkers/python.py b/src/disseminate/checkers/python.py
index fa8b461..fb89ffa 100644
--- a/src/disseminate/checkers/python.py
+++ b/src/disseminate/checkers/python.py
@@ -76,7 +76,9 @@ class PythonChecker(Checker):
             name = name.lower()
 
             # See if the package name is available in the freeze tuple
-            matching_packages = [i for i in self.freeze if i.startswith(name)]
+            matching_packages = [i for i in self.freeze
+                                 if i.startswith(name) and
+                                 (name_and_version(i) or (None,))[0] == name]
 
             # If there are no matching packages, return None and do nothing
             # more
-- 
2.43.0


From 64ff61dd85b990bb62efec63a3f429dcbac090c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:29 +0000
Subject: [PATCH 32/80] fix: compare package versions of different lengths

An installed '1.2.0' was taken as newer than '1.2' and different from it.
---
 src/disseminate/checkers/python.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/disseminate/checkers/python.py b/src/disseminate/checkers/python.py
index fb89ffa..a9fccdc 100644
--- a/src/disseminate/checkers/python.py
+++ b/src/disseminate/checkers/python.py
@@ -102,9 +102,14 @@ class PythonChecker(Checker):
                 # In this case, we don't care about the version--just that it's
                 # installed. It is, so mark it as installed
                 packages.available = True
-            elif installed_ver is not None and op(installed_ver, ver):
-                # Otherwise check the version number
-                packages.available = True
+            elif installed_ver is not None:
+                # Otherwise check the version number. Versions may have
+                # different lengths, '1.2' and '1.2.0' are the same version
+                pad = max(len(installed_ver), len(ver))
+                installed_ver += (0,) * (pad - len(installed_ver))
+                ver += (0,) * (pad - len(ver))
+                if op(installed_ver, ver):
+                    packages.available = True
 
         elif isinstance(packages, SoftwareDependencyList):
             # If the packages is a SoftwareDependencyList, process each package
-- 
2.43.0


From 5bd282cde7da457f0983b0f4b44c751f4c838e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:27 +0000
Subject: [PATCH 33/80] fix: keep tags with empty contents in the tag tree

An empty @featurebox has an empty list as its content, and was removed with
the empty strings by group_strings.
---
 src/disseminate/utils/string.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/utils/string.py b/src/disseminate/utils/string.py
index 0548e1c..1a55c91 100644
--- a/src/disseminate/utils/string.py
+++ b/src/disseminate/utils/string.py
@@ -439,8 +439,9 @@ def group_strings(lst):
     if hasattr(lst, 'content'):
         lst.content = group_strings(lst.content)
     elif isinstance(lst, list):
-        # Remove empty strings
-        new_list = list(filter(bool, lst))
+        # Remove empty strings (and lists), but not tags with empty contents
+        new_list = [item for item in lst
+                    if item or not isinstance(item, (str, list))]
         lst.clear()
         lst += new_list
 
-- 
2.43.0


From 3db8b02f6f1cecd91f39541be3816583f1faee07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:27 +0000
Subject: [PATCH 34/80] fix: do not parse the contents of verbatim tags within
 paragraphs

The contents of paragraphs are parsed again, when they're created.
---
 src/disseminate/tags/receivers/content.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/disseminate/tags/receivers/content.py b/src/disseminate/tags/receivers/content.py
index c094aa2..5bce503 100644
--- a/src/disseminate/tags/receivers/content.py
+++ b/src/disseminate/tags/receivers/content.py
@@ -68,6 +68,10 @@ def parse_tags(content, context, tag_factory, level=1):
     elif isinstance(content, list):
         return list(map(parse, content))
     elif hasattr(content, 'content'):
+        # The contents of some tags (like verbatim tags) should not be parsed
+        if not getattr(content, 'process_content', True):
+            return content
+
         if isinstance(content.content, list):
             content.content = list(map(parse, content.content))
         else:
-- 
2.43.0


From f4677ce1a79d29334f7436fd309dd9d070bbc874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:27 +0000
Subject: [PATCH 35/80] fix: keep paragraph breaks next to dashes

---
 src/disseminate/tags/receivers/typography.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/tags/receivers/typography.py b/src/disseminate/tags/receivers/typography.py
index 1f9c727..aec8f1c 100644
--- a/src/disseminate/tags/receivers/typography.py
+++ b/src/disseminate/tags/receivers/typography.py
@@ -12,8 +12,12 @@ def process_typography(tag, tag_base_cls, **kwargs):
     return process_tag_typography(tag=tag, tag_base_cls=tag_base_cls)
 
 
-re_endash = regex.compile(r"[\s\u00a0]*(--|\u2013)[\s\u00a0]*")
-re_emdash = regex.compile(r"[\s\u00a0]*(---|\u2014)[\s\u00a0]*")
+# The spaces around a dash are removed, including a newline on each side, but
+# not empty lines, since these separate paragraphs
+_re_before = r"(?:(?<!\n[^\S\n]*)[^\S\n]*\n)?[^\S\n]*"
+_re_after = r"[^\S\n]*(?:\n(?![^\S\n]*\n)[^\S\n]*)?"
+re_endash = regex.compile(_re_before + r"(--|\u2013)" + _re_after)
+re_emdash = regex.compile(_re_before + r"(---|\u2014)" + _re_after)
 re_apostrophe = regex.compile(r"(?<=\w)'(?=\w)")
 re_single_start = regex.compile(r"(?<!\w)'(?=\S)")
 re_single_end = regex.compile(r"(?<=\S)'(?!\w)")
-- 
2.43.0


From 700eca4d9d8d2d01447de496b7b0bad0ac10a5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:27 +0000
Subject: [PATCH 36/80] fix: replace macros within macros completely

The replacement stopped when the number of macros did not increase, and did
not end for macros that include themselves more than once. The attributes of
strings are not used as values, either.
---
 src/disseminate/utils/string.py | 72 +++++++++++++++++----------------
 1 file changed, 37 insertions(+), 35 deletions(-)

diff --git a/src/disseminate/utils/string.py b/src/disseminate/utils/string.py
index 1a55c91..46272ed 100644
--- a/src/disseminate/utils/string.py
+++ b/src/disseminate/utils/string.py
@@ -470,7 +470,7 @@ _re_macro = regex.compile(r"(?P<macro>" +
                           )
 
 
-def replace_macros(s, *dicts):
+def replace_macros(s, *dicts, active=()):
     """Replace the macros and return a processed string.
 
     Macros are simple string replacements from context entries whose keys
@@ -478,6 +478,10 @@ def replace_macros(s, *dicts):
     process_context_asts will ignore macro context entries that have keys
     which start with this prefix. This is to preserve macros as strings.
 
+    The values of macros may include other macros, which are replaced as well.
+    A macro that includes itself (possibly in the values of other macros) is
+    only replaced a second time.
+
     Parameters
     ----------
     s : str
@@ -485,6 +489,8 @@ def replace_macros(s, *dicts):
     *dicts : Tuple[dict]
         One or more dicts containing variables defined for a specific document.
         Values will be replaced with the first dict found with that value.
+    active : Optional[Tuple[str]]
+        The macros whose values are being processed.
 
     Returns
     -------
@@ -497,48 +503,44 @@ def replace_macros(s, *dicts):
         Raises a MacroNotFound exception if a macro was included, but it could
         not be found.
     """
-    # Replace the values
-    def _substitute(m):
+    processed = []
+    position = 0
+    match = _re_macro.search(s)
+
+    while match is not None:
         # Get the string for the match
         # ex: macro = '@friend.name'
-        d = m.groupdict()
-        macro = d['macro']
+        macro = match.group('macro')
 
         # Split at periods
         # ex: pieces = ['@friend', 'name']
-        pieces = macro.split('.')
+        name, *pieces = macro.split('.')
 
-        # See if the first piece corresponds to an entry in kwargs
+        # See if the first piece corresponds to an entry in the dicts. Stop if
+        # the macro was already replaced a second time.
         obj = None
-        while pieces:
-            piece = pieces.pop(0)
-
-            if obj is None and any(piece in d for d in dicts):
-                for d in dicts:
-                    if piece in d:
-                        obj = d[piece]
-                        break
-            elif hasattr(obj, piece):
-                obj = getattr(obj, piece)
-            else:
-                # Match not found. Re-add piece to the pieces list
-                pieces.insert(0, piece)
-                break
+        if name not in active or len(set(active)) == len(active):
+            obj = next((d[name] for d in dicts if name in d), None)
+
+        processed.append(s[position:match.start()])
 
-        # Convert obj and the remaining pieces to a string
         if obj is None:
             # no match found. Return the match
-            return m.group()
+            processed.append(match.group())
         else:
-            # match(es) found, replace with the string
-            return str(obj) + ''.join('.' + piece for piece in pieces)
-
-    # Return a string with the dicts substituted. Keep substituting until
-    # all dicts are replaced or the string is no longer changing
-    s, num_subs = _re_macro.subn(_substitute, s)
-    last_num_subs = 0
-    while num_subs > 0 and num_subs > last_num_subs:
-        last_num_subs = num_subs
-        s, num_subs = _re_macro.subn(_substitute, s)
-
-    return s
+            # match(es) found, replace with the string of the object or its
+            # attributes. (The attributes of strings aren't values.)
+            while (pieces and not isinstance(obj, str) and
+                   hasattr(obj, pieces[0])):
+                obj = getattr(obj, pieces.pop(0))
+            value = str(obj) + ''.join('.' + piece for piece in pieces)
+
+            # Replace the macros in the value
+            processed.append(replace_macros(value, *dicts,
+                                            active=active + (name,)))
+
+        position = match.end()
+        match = _re_macro.search(s, position)
+
+    processed.append(s[position:])
+    return ''.join(processed)
-- 
2.43.0


From 492a28f25052251c4028f65f28f07c3cb0ecdd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:49 +0000
Subject: [PATCH 37/80] fix: do not replace macros again in the tags of a
 processed string

Macros with a tag that includes the same macro were processed without end.
---
 src/disseminate/tags/receivers/content.py | 18 ++++++++++++++++--
 src/disseminate/tags/receivers/macros.py  |  7 +++++++
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/tags/receivers/content.py b/src/disseminate/tags/receivers/content.py
index 5bce503..faadef0 100644
--- a/src/disseminate/tags/receivers/content.py
+++ b/src/disseminate/tags/receivers/content.py
@@ -1,6 +1,8 @@
 """
 Receivers for processing a tag's contents on tag creation.
 """
+import threading
+
 import regex
 
 from ..signals import tag_created
@@ -14,17 +16,26 @@ re_open_tag = regex.compile(settings.tag_prefix +  # tag character, '@'
                             r'(?P<open>{)?')
 re_brace = regex.compile(r'[}{]')
 
+# The contents of the tag that is being created by parse_tags (in this thread),
+# if the macros were already replaced in it.
+creation = threading.local()
+
 
 @tag_created.connect_via(order=200)
 def process_content(tag, tag_factory, **kwargs):
     """A receiver to parse the contents of tags into sub-tags."""
+    # Macros have been replaced in string contents
+    macros_replaced = (isinstance(tag.content, str) and
+                       getattr(tag, 'process_macros', True))
+
     content = parse_tags(content=tag.content, context=tag.context,
-                         tag_factory=tag_factory)
+                         tag_factory=tag_factory,
+                         macros_replaced=macros_replaced)
     tag.content = content
     return tag
 
 
-def parse_tags(content, context, tag_factory, level=1):
+def parse_tags(content, context, tag_factory, level=1, macros_replaced=False):
     """Process a string into a tree of tags, strings and lists of both.
 
     .. note:: The parsing of tags is idempotent. It will reprocess the
@@ -38,6 +49,8 @@ def parse_tags(content, context, tag_factory, level=1):
         The context with values for the document.
     level : Optional[int]
         The current level of the ast.
+    macros_replaced : Optional[bool]
+        If True, the macros have already been replaced in the content string.
 
     Returns
     -------
@@ -142,6 +155,7 @@ def parse_tags(content, context, tag_factory, level=1):
             # Process the inner_text if it's more than the empty string
             tag_content = inner_text if inner_text else ''
 
+        creation.content = tag_content if macros_replaced else None
         tag = tag_factory.tag(tag_name=tag_name,
                               tag_content=tag_content,
                               tag_attributes=tag_attributes,
diff --git a/src/disseminate/tags/receivers/macros.py b/src/disseminate/tags/receivers/macros.py
index 35d5e11..1caec9e 100644
--- a/src/disseminate/tags/receivers/macros.py
+++ b/src/disseminate/tags/receivers/macros.py
@@ -1,6 +1,7 @@
 """
 Receivers for processing a tag's macros on tag creation.
 """
+from .content import creation
 from ..signals import tag_created
 from ...utils.string import replace_macros
 
@@ -14,6 +15,12 @@ def process_macros(tag, **kwargs):
     if not isinstance(tag.content, str):
         return None
 
+    # Skip strings that are part of the contents of another tag, in which the
+    # macros were already replaced. Macros that include themselves in a tag
+    # would otherwise be replaced without end.
+    if tag.content is getattr(creation, 'content', None):
+        return None
+
     # Process the entry in the context
     tag.content = replace_macros(tag.content, tag.context)
     return tag
-- 
2.43.0


From 0ab4949fd466d21dba1c906bc06c95b016b4017c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:07 +0000
Subject: [PATCH 38/80] fix: do not replace macros within verbatim and code
 tags

---
 src/disseminate/tags/code.py              |  1 +
 src/disseminate/tags/receivers/content.py | 29 +++++++++++++++++++++++
 src/disseminate/tags/receivers/macros.py  | 15 +++++++++---
 src/disseminate/tags/text.py              |  3 +++
 src/disseminate/utils/string.py           | 17 +++++++++----
 5 files changed, 57 insertions(+), 8 deletions(-)

diff --git a/src/disseminate/tags/code.py b/src/disseminate/tags/code.py
index ec60a93..80f3a12 100644
--- a/src/disseminate/tags/code.py
+++ b/src/disseminate/tags/code.py
@@ -17,6 +17,7 @@ class Code(Tag):
 
     active = True
 
+    process_macros = False  # Do not replace macros in the contents
     process_content = False  # Do not process the contents
     process_typography = False  # Do not process typography tags
     include_paragraphs = True  # Do not include paragraphs within
diff --git a/src/disseminate/tags/receivers/content.py b/src/disseminate/tags/receivers/content.py
index faadef0..56820b8 100644
--- a/src/disseminate/tags/receivers/content.py
+++ b/src/disseminate/tags/receivers/content.py
@@ -35,6 +35,35 @@ def process_content(tag, tag_factory, **kwargs):
     return tag
 
 
+def find_tag_end(string, position):
+    """Find the tag that starts at the given position of a string.
+
+    Parameters
+    ----------
+    string : str
+        The string with the tag
+    position : int
+        The position of the start of the tag
+
+    Returns
+    -------
+    match, end : Tuple[Optional[:obj:`regex.Match`], Optional[int]]
+        The match for the opening of the tag (or None, if there is no tag at
+        the position) and the position after the tag (or None, if the tag's
+        braces aren't closed).
+    """
+    match = re_open_tag.match(string, position)
+    if match is None or match.group('open') is None:
+        return match, match.end() if match is not None else None
+
+    brace_level = 1
+    for brace in re_brace.finditer(string, match.end()):
+        brace_level += 1 if brace.group() == '{' else -1
+        if brace_level == 0:
+            return match, brace.end()
+    return match, None
+
+
 def parse_tags(content, context, tag_factory, level=1, macros_replaced=False):
     """Process a string into a tree of tags, strings and lists of both.
 
diff --git a/src/disseminate/tags/receivers/macros.py b/src/disseminate/tags/receivers/macros.py
index 1caec9e..bf0973a 100644
--- a/src/disseminate/tags/receivers/macros.py
+++ b/src/disseminate/tags/receivers/macros.py
@@ -1,13 +1,13 @@
 """
 Receivers for processing a tag's macros on tag creation.
 """
-from .content import creation
+from .content import creation, find_tag_end
 from ..signals import tag_created
 from ...utils.string import replace_macros
 
 
 @tag_created.connect_via(order=100)
-def process_macros(tag, **kwargs):
+def process_macros(tag, tag_factory, **kwargs):
     """A receiver for replacing macros in pre-parsed tag strings."""
     # Skip non-string entries and macro entries. Macros themselves don't
     # need to be processed, and processing these can introduce problems
@@ -21,6 +21,15 @@ def process_macros(tag, **kwargs):
     if tag.content is getattr(creation, 'content', None):
         return None
 
+    # The contents of some sub-tags, like verbatim tags, should not be changed
+    def skip(string, position):
+        match, end = find_tag_end(string, position)
+        if match is None or end is None:
+            return None
+        tag_cls = tag_factory.tag_class(tag_name=match.group('tag'),
+                                        context=tag.context)
+        return None if getattr(tag_cls, 'process_macros', True) else end
+
     # Process the entry in the context
-    tag.content = replace_macros(tag.content, tag.context)
+    tag.content = replace_macros(tag.content, tag.context, skip=skip)
     return tag
diff --git a/src/disseminate/tags/text.py b/src/disseminate/tags/text.py
index f377b05..2ed410d 100644
--- a/src/disseminate/tags/text.py
+++ b/src/disseminate/tags/text.py
@@ -287,6 +287,8 @@ class Verb(Tag):
         use name.
     active : bool
         This tag is active.
+    process_macros : bool
+        Do not replace macros in the contents of the tag.
     process_content : bool
         Do not process the contents of the tag--just take the contents
         literally.
@@ -297,6 +299,7 @@ class Verb(Tag):
     aliases = ("v", "pre", "verbatim")
     active = True
 
+    process_macros = False
     process_content = False
     process_typography = False
 
diff --git a/src/disseminate/utils/string.py b/src/disseminate/utils/string.py
index 46272ed..2f33e2e 100644
--- a/src/disseminate/utils/string.py
+++ b/src/disseminate/utils/string.py
@@ -470,7 +470,7 @@ _re_macro = regex.compile(r"(?P<macro>" +
                           )
 
 
-def replace_macros(s, *dicts, active=()):
+def replace_macros(s, *dicts, skip=None, active=()):
     """Replace the macros and return a processed string.
 
     Macros are simple string replacements from context entries whose keys
@@ -489,6 +489,10 @@ def replace_macros(s, *dicts, active=()):
     *dicts : Tuple[dict]
         One or more dicts containing variables defined for a specific document.
         Values will be replaced with the first dict found with that value.
+    skip : Optional[Callable[[str, int], Optional[int]]]
+        A function that takes a string and the position of a macro-like entry
+        (ex: '@verb') that isn't a macro, and returns the position up to which
+        the string should not be changed, or None.
     active : Optional[Tuple[str]]
         The macros whose values are being processed.
 
@@ -522,11 +526,14 @@ def replace_macros(s, *dicts, active=()):
         if name not in active or len(set(active)) == len(active):
             obj = next((d[name] for d in dicts if name in d), None)
 
+        end = match.end()
         processed.append(s[position:match.start()])
 
         if obj is None:
-            # no match found. Return the match
-            processed.append(match.group())
+            # no match found. Return the match, and the text to skip
+            skip_end = skip(s, match.start()) if skip is not None else None
+            end = skip_end or end
+            processed.append(s[match.start():end])
         else:
             # match(es) found, replace with the string of the object or its
             # attributes. (The attributes of strings aren't values.)
@@ -536,10 +543,10 @@ def replace_macros(s, *dicts, active=()):
             value = str(obj) + ''.join('.' + piece for piece in pieces)
 
             # Replace the macros in the value
-            processed.append(replace_macros(value, *dicts,
+            processed.append(replace_macros(value, *dicts, skip=skip,
                                             active=active + (name,)))
 
-        position = match.end()
+        position = end
         match = _re_macro.search(s, position)
 
     processed.append(s[position:])
-- 
2.43.0


From 89d9b7f6856aee8f4367eecc5dea4a1006bd937b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:40 +0000
Subject: [PATCH 39/80] fix: builders for the same output file share its
 process

When an image or equation is used more than once, a builder was created for
each use, and their processes wrote (and read) the same files at the same
time. A builder now uses the running process of another builder with the same
command and inputs or waits until the file isn't written anymore.
---
 src/disseminate/builders/builder.py  | 48 ++++++++++++++++++++++++++--
 src/disseminate/builders/executor.py | 19 +++++++++--
 2 files changed, 61 insertions(+), 6 deletions(-)

diff --git a/src/disseminate/builders/builder.py b/src/disseminate/builders/builder.py
index 3fff36d..3d2abf9 100644
--- a/src/disseminate/builders/builder.py
+++ b/src/disseminate/builders/builder.py
@@ -3,13 +3,15 @@ Objects to manage builds
 """
 import logging
 import pathlib
+import weakref
 from abc import ABCMeta
 from string import Formatter
 from distutils.spawn import find_executable
 
 import pathvalidate
 
-from .executor import executor, run, runtime_error, runtime_success
+from .executor import (executor, run, runtime_error, runtime_success,
+                       file_signature)
 from .deciders.utils_hash import hash_items
 from .utils import generate_outfilepath, generate_mock_parameters
 from .exceptions import BuildError
@@ -105,6 +107,8 @@ class Builder(metaclass=ABCMeta):
         The future can also be None, if a process hasn't been run.
     future_inputs : Optional[str]
         The hash of the inputs when the process for the future was started.
+    future_args : Optional[Tuple[str]]
+        The arguments of the process for the future.
     """
     env = None
     action = None
@@ -128,9 +132,13 @@ class Builder(metaclass=ABCMeta):
     parameters_from_signals = None
 
     future = None
+    future_args = None
     future_inputs = None
     timeout = settings.default_timeout
 
+    # The builder that last started a process for each output file
+    _processes = weakref.WeakValueDictionary()
+
     _active = dict()
     _available_builders = dict()
     _parameters = None
@@ -251,6 +259,12 @@ class Builder(metaclass=ABCMeta):
                 # The process isn't done.
                 return "building"
 
+            other = self._processes.get(str(self.outfilepath), self)
+            if other.future not in (None, self.future):
+                # The output file was written by another process since.
+                self.future = None
+                return "ready"
+
             if self.future_inputs != self.hash_inputs():
                 # The inputs were changed since the process was started. A new
                 # build is needed.
@@ -468,13 +482,41 @@ class Builder(metaclass=ABCMeta):
 
             # Format the action string, if it's to be used
             args = args if args else self.run_cmd_args()
+            inputs = self.hash_inputs()
+
+            # The output file may be used by other builders. Two processes
+            # shouldn't write it at the same time.
+            key = str(self.outfilepath)
+            other = self._processes.get(key, None)
+            if other is not None and other.future is not None:
+                if (other.env is self.env and other.future_args == args and
+                   other.future_inputs == inputs and other.is_successful()):
+                    self.future = other.future
+                    self.future_args, self.future_inputs = args, inputs
+                    return None
+                if not other.future.done():
+                    return None
+
             logging.debug("'{}' run with: '{}'".format(self.__class__.__name__,
                                                        " ".join(args)))
 
             # add the process to the executor pool
-            self.future_inputs = self.hash_inputs()
-            future = executor.submit(run, args=args, timeout=self.timeout)
+            self.future_args, self.future_inputs = args, inputs
+            future = executor.submit(run, args=args, timeout=self.timeout,
+                                     outfilepath=self.outfilepath)
             self.future = future
+            self._processes[key] = self
+
+    def is_successful(self):
+        """True if a process is running or if it was run successfully and the
+        output file wasn't changed since."""
+        future = self.future
+        if future is None or not future.done():
+            return future is not None
+        return (not future.cancelled() and future.exception() is None and
+                self.runtime_success(future=future) and
+                future.result().output is not None and
+                future.result().output == file_signature(self.outfilepath))
 
     def build(self, complete=False):
         """Run the build.
diff --git a/src/disseminate/builders/executor.py b/src/disseminate/builders/executor.py
index 1724ff4..fbefa05 100644
--- a/src/disseminate/builders/executor.py
+++ b/src/disseminate/builders/executor.py
@@ -12,10 +12,21 @@ from .exceptions import BuildError
 # Setup a global pool for processes
 executor = ThreadPoolExecutor(max_workers=cpu_count() * 2)
 
-PopenResult = namedtuple('PopenResult', 'returncode args stdout stderr')
+PopenResult = namedtuple('PopenResult', 'returncode args stdout stderr output',
+                         defaults=(None,))
 
 
-def run(timeout, **kwargs):
+def file_signature(filepath):
+    """A signature for a file to identify later changes, or None if the file
+    doesn't exist."""
+    try:
+        stat = filepath.stat()
+    except FileNotFoundError:
+        return None
+    return stat.st_mtime_ns, stat.st_size, stat.st_ino
+
+
+def run(timeout, outfilepath=None, **kwargs):
     """Run the command with the given arguments."""
     popen = subprocess.Popen(**kwargs, stdout=subprocess.PIPE,
                              stderr=subprocess.PIPE, bufsize=4096,)
@@ -31,7 +42,9 @@ def run(timeout, **kwargs):
     return PopenResult(returncode=popen.returncode,
                        args=popen.args,
                        stdout=stdout.decode('latin1'),
-                       stderr=stderr.decode('latin1'))
+                       stderr=stderr.decode('latin1'),
+                       output=(file_signature(outfilepath)
+                               if outfilepath is not None else None))
 
 
 @staticmethod
-- 
2.43.0


From 385b895436602be41ded8f8b0fe508390376ab43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:07 +0000
Subject: [PATCH 40/80] fix: attribute values lost quotes at their ends and
 kept separating commas

---
 src/disseminate/attributes/attributes.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/disseminate/attributes/attributes.py b/src/disseminate/attributes/attributes.py
index 2fdfdbf..da271d8 100644
--- a/src/disseminate/attributes/attributes.py
+++ b/src/disseminate/attributes/attributes.py
@@ -100,11 +100,28 @@ def is_target_specific(attr, sep=settings.attribute_target_sep):
     return attr != strip_attr(attr, sep=sep)
 
 
+def strip_quotes(value):
+    """Strip the quotes that enclose the given value.
+
+    Examples
+    --------
+    >>> strip_quotes('"my value"')
+    'my value'
+    >>> strip_quotes('''"the 'value'"''')
+    "the 'value'"
+    >>> strip_quotes("value")
+    'value'
+    """
+    if len(value) > 1 and value[0] == value[-1] and value[0] in '"\'':
+        return value[1:-1]
+    return value
+
+
 re_attrs = regex.compile(r'((?P<key>[\w\.]+)'
                          r'\s*=\s*'
                          r'(?P<value>("[^"]*"'
                          r'|\'[^\']*\''
-                         r'|[^\s\]]+))'
+                         r'|[^\s\]]+?(?=,*(?:[\s\]]|$))))'
                          r'|(?P<position>"[^"]*"'
                          r'|\'[^\']*\''
                          r'|[^\s,\[\]]+|))')
@@ -175,10 +192,10 @@ class Attributes(dict):
             d = m.groupdict()
             if d.get('key', None) and d.get('value', None):
                 # Put the key-value pair in the attributes dict
-                attrs.append((d['key'], d['value'].strip('"').strip("'")))
+                attrs.append((d['key'], strip_quotes(d['value'])))
 
             elif d.get('position', None):
-                value = d['position'].strip("'").strip('"')
+                value = strip_quotes(d['position'])
 
                 # Strip target-specific suffixes to get the accurate
                 # PostionalValue subclass. (ex: '3.1416.tex' turns into
-- 
2.43.0


From daefe04569e244d1f167074977e3940bda7735dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:03 +0000
Subject: [PATCH 41/80] fix: attribute entries of other targets were found by
 type, and values were cut like target-specific names

---
 src/disseminate/attributes/attributes.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/disseminate/attributes/attributes.py b/src/disseminate/attributes/attributes.py
index da271d8..c8b4b6a 100644
--- a/src/disseminate/attributes/attributes.py
+++ b/src/disseminate/attributes/attributes.py
@@ -272,19 +272,17 @@ class Attributes(dict):
             # ex: StringPositionalValue
             items = [(k, v) for k, v in self.items() if ispositional(v, attr)]
 
-            if target:
-                # Filter by target, if specific
-                target_items = [(k, v) for k, v in items if k.endswith(target)]
-            else:
-                # Otherwise remove entries that have target-specific
-                target_items = [(k, v) for k, v in items
-                                if not is_target_specific(k, sep=sep)]
+            # Filter by target, if specified
+            target_items = [(k, v) for k, v in items
+                            if target and k.endswith(sep + target)]
+
+            # Otherwise remove entries that are target-specific
+            target_items += [(k, v) for k, v in items
+                             if not is_target_specific(k, sep=sep)]
 
             # Return the first item found
             if target_items:
                 return target_items[0]
-            elif items:
-                return items[0]
 
         # Give up
         return default
@@ -339,9 +337,9 @@ class Attributes(dict):
                             sep=sep)
         if isinstance(rv, tuple) and len(rv) == 2:
             key, value = rv
-            rv = key if ispositional(attr) else value
 
-            return strip_attr(rv, sep=sep) if isinstance(rv, str) else rv
+            # Only the keys (of positional attributes) are target-specific
+            return strip_attr(key, sep=sep) if ispositional(attr) else value
         else:
             return rv
 
-- 
2.43.0


From 38ee6f2623235b80c8fd438f442fa8f78c21b4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:08 +0000
Subject: [PATCH 42/80] fix: white space on the line before a list item counted
 as its indentation

---
 src/disseminate/tags/list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disseminate/tags/list.py b/src/disseminate/tags/list.py
index 4838b9c..f59ff54 100644
--- a/src/disseminate/tags/list.py
+++ b/src/disseminate/tags/list.py
@@ -12,7 +12,7 @@ from .. import settings
 
 
 # Find lists with entries labeled with a '-' or '*' bullet for each list item
-re_list = regex.compile(r'^\s*[\*\-]', regex.MULTILINE)
+re_list = regex.compile(r'^[^\S\n]*[\*\-]', regex.MULTILINE)
 
 # Regex to clean list items with multi-line line-items
 re_multiline_items = regex.compile(r'\s*\n+\s+')
-- 
2.43.0


From 8c1cccdf9c26b4067a4e2825dac43bb32acc6cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:08 +0000
Subject: [PATCH 43/80] fix: items nested below an item of a lower level than
 the first were put at its level in html

---
 src/disseminate/formats/xhtml.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/formats/xhtml.py b/src/disseminate/formats/xhtml.py
index 32e6dfc..fed055b 100644
--- a/src/disseminate/formats/xhtml.py
+++ b/src/disseminate/formats/xhtml.py
@@ -273,11 +273,12 @@ def xhtml_list(*elements, attributes=None, listtype='ol', level=1,
     # Setup a counter function for list levels. When a new list item is
     # encountered, all sub items will receive the same number so that they're
     # grouped together. Items with a lower level than the first item are not
-    # sub items.
+    # sub items, and the items after these are sub items of these.
     def counter(item):
-        nonlocal _count
+        nonlocal _count, listlevel
         if item[0] <= listlevel:
             _count += 1
+            listlevel = item[0]
         return _count
 
     # Go by each list item and its group of sublists
-- 
2.43.0


From e250e42aa6cff65d27c74350d6d18b549c5589d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:05 +0000
Subject: [PATCH 44/80] fix: paths with spaces were split into several
 arguments of a command

---
 src/disseminate/builders/builder.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/disseminate/builders/builder.py b/src/disseminate/builders/builder.py
index 3d2abf9..b311da1 100644
--- a/src/disseminate/builders/builder.py
+++ b/src/disseminate/builders/builder.py
@@ -29,8 +29,8 @@ class CustomFormatter(Formatter):
     def get_field(self, field_name, args, kwargs):
         field_value, field_name = super().get_field(field_name, args, kwargs)
         if isinstance(field_value, list) or isinstance(field_value, tuple):
-            # Make lists/tuples into space-separated strings
-            field_value = " ".join(self.clean_field(f) for f in field_value)
+            # Make lists/tuples into separate arguments
+            field_value = "\0".join(self.clean_field(f) for f in field_value)
             return field_value, field_name
         return self.clean_field(field_value), field_name
 
@@ -470,9 +470,12 @@ class Builder(metaclass=ABCMeta):
             A tuple of the arguments to run in a process.
         """
         if isinstance(self.action, str):
+            # Split the action into arguments before formatting, since the
+            # formatted paths may have spaces
             fmt = CustomFormatter()
-            fmt_action = fmt.format(self.action, builder=self)
-            return tuple(fmt_action.split())
+            fmt_action = fmt.format("\0".join(self.action.split()),
+                                    builder=self)
+            return tuple(filter(bool, fmt_action.split("\0")))
         else:
             return tuple()
 
-- 
2.43.0


From 465a9c00ac7d6224fe53104b7c75772d1f5f6c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:51 +0000
Subject: [PATCH 45/80] fix: files above the project root were written outside
 of the target directory

---
 src/disseminate/builders/utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/disseminate/builders/utils.py b/src/disseminate/builders/utils.py
index 90e6629..cc2db1a 100644
--- a/src/disseminate/builders/utils.py
+++ b/src/disseminate/builders/utils.py
@@ -1,6 +1,7 @@
 """
 Utilities for builders and environments
 """
+import os
 import pathlib
 
 from .deciders.utils_hash import hash_items
@@ -162,6 +163,11 @@ def generate_outfilepath(env, parameters, target=None, append=None, ext=None,
     if hasattr(subpath, 'is_absolute') and subpath.is_absolute():
         subpath = pathlib.Path(subpath.name)
 
+    # Files above the project root are placed in the target directory too,
+    # with '__' for each directory up
+    subpath = pathlib.Path(*('__' if part == os.pardir else part for part in
+                             pathlib.Path(os.path.normpath(subpath)).parts))
+
     # Add media_path, if specified
     if media_path and not str(subpath).startswith(media_path):
         subpath = rename(path=media_path / subpath, append=append,
-- 
2.43.0


From 29e05997306f386ba8ca32fb595d32458f967ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:11 +0000
Subject: [PATCH 46/80] fix: links to files with special characters in their
 names

---
 src/disseminate/paths/paths.py     | 5 +++--
 src/disseminate/tags/navigation.py | 3 ++-
 src/disseminate/tags/ref.py        | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/disseminate/paths/paths.py b/src/disseminate/paths/paths.py
index 69985f3..929c5a7 100644
--- a/src/disseminate/paths/paths.py
+++ b/src/disseminate/paths/paths.py
@@ -7,6 +7,7 @@ import pathlib
 import os
 import re
 import weakref
+from urllib.parse import quote
 
 
 re_dbl_slash = re.compile(r'(?<!\:)//')  # match '//' but not '://'
@@ -225,14 +226,14 @@ class TargetPath(object):
         relpath = os.path.relpath(self, target_path)
 
         # Construct a relative url relative to the target_path
-        return str(relpath)
+        return quote(str(relpath))
 
     def _get_absolute_url(self, context, target=None):
         """Construct the absolute url for the path."""
         # Get the parts of paths that will be used
         target_root = str(self.target_root).strip('.')
         target = str(target or self.target).strip('.')
-        subpath = str(self.subpath).strip('.')
+        subpath = quote(str(self.subpath)) if str(self.subpath) != '.' else ''
 
         url_str = (context['base_url'] if isinstance(context, dict) and
                    'base_url' in context else '/{target}/{subpath}')
diff --git a/src/disseminate/tags/navigation.py b/src/disseminate/tags/navigation.py
index 4c2df73..cce6018 100644
--- a/src/disseminate/tags/navigation.py
+++ b/src/disseminate/tags/navigation.py
@@ -4,6 +4,7 @@ Navigation tags
 import weakref
 from os.path import relpath
 from itertools import groupby
+from urllib.parse import quote
 
 from markupsafe import escape
 
@@ -238,7 +239,7 @@ class OtherLink(Tag):
 
         # Generate the relative path
         rp = relpath(other_filepath, this_filepath.parent)
-        return escape(rp)
+        return escape(quote(rp))
 
     def default_fmt(self, **kwargs):
         return ""
diff --git a/src/disseminate/tags/ref.py b/src/disseminate/tags/ref.py
index 9ce3fd6..d056d6a 100644
--- a/src/disseminate/tags/ref.py
+++ b/src/disseminate/tags/ref.py
@@ -301,7 +301,7 @@ class Ref(Tag):
 
             # Add a target-specific attribute to the url so that it's
             # properly parsed for the '.tex' target
-            url = url + '.tex' if url else ''
+            url = url.replace('%', r'\%') + '.tex' if url else ''
 
             # wrap content in 'href' tag, if a url is present, otherwise
             # just return a regular text string
-- 
2.43.0


From fe3c77d1a2fdd77d289a9fdf12036c03bc085803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:47 +0000
Subject: [PATCH 47/80] fix: images with positional attributes were never
 copied

---
 src/disseminate/builders/copy.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/disseminate/builders/copy.py b/src/disseminate/builders/copy.py
index 8e23ca6..30202af 100644
--- a/src/disseminate/builders/copy.py
+++ b/src/disseminate/builders/copy.py
@@ -26,17 +26,12 @@ class Copy(Builder):
         super().__init__(env=env, parameters=parameters,
                          outfilepath=outfilepath, **kwargs)
 
-        # Make sure the parameters are pathlib.Path objects
-        filtered_parameters = []
-        for parameter in self.parameters:
-            if isinstance(parameter, str):
-                parameter = pathlib.Path(parameter)
-
-            if isinstance(parameter, pathlib.Path):
-                filtered_parameters.append(parameter)
-            else:
-                filtered_parameters.append(parameter)
-        self.parameters = filtered_parameters
+        # Make sure the file to copy is a pathlib.Path object. The other
+        # parameters may be strings, like the positional attributes of a tag.
+        parameters = list(self.parameters)
+        if parameters and isinstance(parameters[0], str):
+            parameters[0] = pathlib.Path(parameters[0])
+        self.parameters = parameters
 
     @property
     def status(self):
-- 
2.43.0


From 45820eb7a98a4b9fff1149947983c74dd3816367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:27 +0000
Subject: [PATCH 48/80] fix: next and previous links and references with tags
 in their text could not be rendered in tex

---
 src/disseminate/tags/navigation.py | 4 ++--
 src/disseminate/tags/ref.py        | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/tags/navigation.py b/src/disseminate/tags/navigation.py
index cce6018..c5c75b2 100644
--- a/src/disseminate/tags/navigation.py
+++ b/src/disseminate/tags/navigation.py
@@ -110,7 +110,7 @@ class Next(Ref):
             cache['label'] = label()  # Dereference. See above.
 
         if 'label' in cache:
-            return super(Next, self).html_fmt(cache=cache, **kwargs)
+            return super(Next, self).tex_fmt(cache=cache, **kwargs)
         else:
             return ""
 
@@ -166,7 +166,7 @@ class Prev(Ref):
             cache['label'] = label()  # Dereference. See above.
 
         if 'label' in cache:
-            return super(Prev, self).html_fmt(cache=cache, **kwargs)
+            return super(Prev, self).tex_fmt(cache=cache, **kwargs)
         else:
             return ""
 
diff --git a/src/disseminate/tags/ref.py b/src/disseminate/tags/ref.py
index d056d6a..bea95ce 100644
--- a/src/disseminate/tags/ref.py
+++ b/src/disseminate/tags/ref.py
@@ -289,6 +289,8 @@ class Ref(Tag):
                                 context=context)
             content = format_content(content=processed_tag.content,
                                      format_func='tex_fmt', level=level + 1)
+            content = (''.join(content) if isinstance(content, list) else
+                       content)
 
             # setup a url path and include the anchor if the label is not
             # for a DocumentLabel. DocumentLabels should just point to the
-- 
2.43.0


From a5fc855e2c2b36f22280d367927c977803b99af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:15 +0000
Subject: [PATCH 49/80] fix: labels of a document were lost if labels were
 retrieved while it was loaded

---
 src/disseminate/document/document.py          | 48 +++++++++++--------
 .../label_manager/label_manager.py            | 32 ++++++++++++-
 .../label_manager/register_orders.py          | 17 +++++--
 3 files changed, 73 insertions(+), 24 deletions(-)

diff --git a/src/disseminate/document/document.py b/src/disseminate/document/document.py
index e483e05..24fdb51 100644
--- a/src/disseminate/document/document.py
+++ b/src/disseminate/document/document.py
@@ -500,28 +500,38 @@ class Document(object):
         # Retrieve the file paths of included files in the context
         src_filepaths = self.context.includes
 
+        # The sub-documents are only held by this document once they're loaded.
+        # Their labels should be kept if labels are retrieved while loading.
+        doc_ids = []
         for src_filepath in src_filepaths:
-            # If the document is this document or it is held by another
-            # document, do nothing, as a document should only be in a project
-            # once
-            if src_filepath in held:
-                continue
-            held.add(src_filepath)
-
             if src_filepath in previous_subdocuments:
-                # If the document is already loaded and controlled by this
-                # document, copy it to the subdocuments ordered dict
-                subdoc = previous_subdocuments[src_filepath]
-                document_loaded |= subdoc.load(level=level + 1, held=held)
+                doc_ids += previous_subdocuments[src_filepath].doc_ids
             else:
-                # The document could not be found, at this point. Create it
-                subdoc = Document(src_filepath=src_filepath,
-                                  environment=environment,
-                                  parent_context=self.context,
-                                  level=level + 1,
-                                  held=held)
-                document_loaded |= True
-            self.subdocuments[src_filepath] = subdoc
+                doc_ids.append(str(src_filepath.subpath))
+
+        with self.label_manager.loading(doc_ids):
+            for src_filepath in src_filepaths:
+                # If the document is this document or it is held by another
+                # document, do nothing, as a document should only be in a project
+                # once
+                if src_filepath in held:
+                    continue
+                held.add(src_filepath)
+
+                if src_filepath in previous_subdocuments:
+                    # If the document is already loaded and controlled by this
+                    # document, copy it to the subdocuments ordered dict
+                    subdoc = previous_subdocuments[src_filepath]
+                    document_loaded |= subdoc.load(level=level + 1, held=held)
+                else:
+                    # The document could not be found, at this point. Create it
+                    subdoc = Document(src_filepath=src_filepath,
+                                      environment=environment,
+                                      parent_context=self.context,
+                                      level=level + 1,
+                                      held=held)
+                    document_loaded |= True
+                self.subdocuments[src_filepath] = subdoc
 
         # Update the subdocuments mtimes to this document's mtime. The
         # sub-document's mtime must updated so that a load_required is not
diff --git a/src/disseminate/label_manager/label_manager.py b/src/disseminate/label_manager/label_manager.py
index b076b4f..f4c4413 100644
--- a/src/disseminate/label_manager/label_manager.py
+++ b/src/disseminate/label_manager/label_manager.py
@@ -2,6 +2,7 @@
 The manager for labels.
 """
 from collections import OrderedDict
+from contextlib import contextmanager
 from threading import Lock
 
 from .types import Label, ContentLabel, DocumentLabel
@@ -72,10 +73,38 @@ class LabelManager(object):
     collected_labels = None
     registered = False
 
+    #: The doc_ids of documents that are being loaded, for each of the documents
+    #: that are loading sub-documents.
+    _loading = None
+
     def __init__(self, root_context):
         self.labels = OrderedDict()
+        self._loading = []
         self.root_context = root_context
 
+    @contextmanager
+    def loading(self, doc_ids):
+        """A context manager to keep the labels for documents that are being
+        loaded, and that may not be part of the project's document tree yet.
+
+        Parameters
+        ----------
+        doc_ids : Iterable[str]
+            The doc_ids of the documents that are being loaded.
+        """
+        self._loading.append(list(doc_ids))
+        try:
+            yield
+        finally:
+            # Documents that were loaded by a sub-document are available in the
+            # document tree once the outermost document has been loaded
+            if len(self._loading) > 1:
+                loaded = self._loading.pop()
+                self._loading[-1] += loaded
+            else:
+                self._loading.clear()
+            self.registered = False
+
     def register(self, context=None):
         """Register the labels.
         """
@@ -91,7 +120,8 @@ class LabelManager(object):
         for func in (register_orders,  # Register label 'order' attribute
                      register_content_labels,  # Set chapter/section attributes
                      ):
-            func(labels=self.labels, root_context=context)
+            func(labels=self.labels, root_context=context,
+                 loading_doc_ids=sum(self._loading, []))
 
         # Labels have been registered. Release the lock
         self.registered = True
diff --git a/src/disseminate/label_manager/register_orders.py b/src/disseminate/label_manager/register_orders.py
index 36fdc8c..9b49ee5 100644
--- a/src/disseminate/label_manager/register_orders.py
+++ b/src/disseminate/label_manager/register_orders.py
@@ -7,7 +7,8 @@ from collections import Counter
 from ..utils.string import str_to_list
 
 
-def reorder_and_purge_labels_by_doc_id(labels, root_context):
+def reorder_and_purge_labels_by_doc_id(labels, root_context,
+                                       loading_doc_ids=()):
     """Reorder labels by doc_id and remove labels that refer to a doc_id for
     a document that no longer exists.
 
@@ -18,13 +19,18 @@ def reorder_and_purge_labels_by_doc_id(labels, root_context):
         are the label objects.
     root_context : :obj:`.document.DocumentContext`
         The context for the root document.
+    loading_doc_ids : Optional[Iterable[str]]
+        The doc_ids of documents that are being loaded, and that may not be
+        included in the project's document tree yet.
     """
 
     # Get the order of doc_ids from the root_context
     root_doc = root_context.root_document
     if root_doc is not None:
         # Use the doc_ids from the project
-        doc_ids = root_doc.doc_ids if root_doc is not None else []
+        doc_ids = root_doc.doc_ids
+        doc_ids += [doc_id for doc_id in loading_doc_ids
+                    if doc_id not in doc_ids]
     else:
         # Use the doc_ids from the labels themselves
         doc_ids = [label.doc_id for label in labels.values()]
@@ -43,7 +49,7 @@ def reorder_and_purge_labels_by_doc_id(labels, root_context):
         labels[label.doc_id, label.id] = label
 
 
-def register_orders(labels, root_context, **kwargs):
+def register_orders(labels, root_context, loading_doc_ids=(), **kwargs):
     """Set the order attributes of labels.
 
     - The order is a tuple of integers that indicate the order or a label
@@ -76,9 +82,12 @@ def register_orders(labels, root_context, **kwargs):
         are the label objects.
     root_context : :obj:`.document.DocumentContext`
         The context for the root document.
+    loading_doc_ids : Optional[Iterable[str]]
+        The doc_ids of documents that are being loaded, and that may not be
+        included in the project's document tree yet.
     """
     # Reorder labels
-    reorder_and_purge_labels_by_doc_id(labels, root_context)
+    reorder_and_purge_labels_by_doc_id(labels, root_context, loading_doc_ids)
 
     # Keep track of the counts for each kind
     count = Counter()
-- 
2.43.0


From b745fd5e8ae5378eb886b2d550f2c3364d03c14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:36 +0000
Subject: [PATCH 50/80] fix: dependencies of documents that are up to date were
 not built after a restart

---
 src/disseminate/builders/jinja_render.py      | 20 ++++++++++++++++---
 .../target_builders/target_builder.py         | 19 ++++++++++++++++++
 2 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/src/disseminate/builders/jinja_render.py b/src/disseminate/builders/jinja_render.py
index 77ff593..4fdb949 100644
--- a/src/disseminate/builders/jinja_render.py
+++ b/src/disseminate/builders/jinja_render.py
@@ -93,6 +93,9 @@ class JinjaRender(Builder):
     render_project : bool
         If True, the rendered file depends on the files of the context's
         project--i.e. the documents and the files used by tags.
+    rendered : bool
+        If True, the template was rendered by this builder, and the builders
+        for the dependencies of the context's tags have been added.
     """
 
     available = True
@@ -107,6 +110,7 @@ class JinjaRender(Builder):
 
     render_ext = None
     render_project = False
+    rendered = False
 
     def __init__(self, env, context, render_ext=None, **kwargs):
         super().__init__(env, **kwargs)
@@ -257,18 +261,28 @@ class JinjaRender(Builder):
     #                                  target=self.render_ext)
     #         self.future = future
 
-    def build(self, complete=False):
+    def render(self):
+        """Render the template to a string.
+
+        Rendering adds the builders for the dependencies of the context's tags,
+        like images.
+        """
         template = self.template()
-        context = self.context
         outfilepath = self.outfilepath
 
         logging.debug("Rendering '{}' with Jinja2 "
                       "'{}'".format(outfilepath, template))
         # The render target and outfilepath take precedence over entries in
         # the context, like a 'target' header entry.
-        rendered_string = template.render({**context,
+        rendered_string = template.render({**self.context,
                                            'target': self.render_ext,
                                            'outfilepath': outfilepath})
+        self.rendered = True
+        return rendered_string
+
+    def build(self, complete=False):
+        rendered_string = self.render()
+        outfilepath = self.outfilepath
 
         outfilepath.write_text(rendered_string)
         self.build_needed(reset=True)
diff --git a/src/disseminate/builders/target_builders/target_builder.py b/src/disseminate/builders/target_builders/target_builder.py
index df00099..0c2c6b0 100644
--- a/src/disseminate/builders/target_builders/target_builder.py
+++ b/src/disseminate/builders/target_builders/target_builder.py
@@ -169,6 +169,25 @@ class TargetBuilder(SequentialBuilder):
                                         **kwargs)
         return builder
 
+    def add_dependencies(self):
+        """Add the builders for the dependencies of a document whose render is
+        up to date.
+
+        The builders for the dependencies of tags, like images, are added by
+        rendering the document. These may have to be built, even if the
+        rendered document itself doesn't.
+        """
+        render_builder = self._render_builder
+        if (render_builder is not None and
+           not render_builder.rendered and
+           render_builder.status == 'done'):
+            render_builder.render()
+
+    @property
+    def status(self):
+        self.add_dependencies()
+        return SequentialBuilder.status.fget(self)
+
     def build(self, complete=False):
         # Reload the document
         context = self.context
-- 
2.43.0


From a0365343af3f8516bba22735e68a73d3b5b9e09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:36 +0000
Subject: [PATCH 51/80] fix: files of an edited template were not copied until
 a restart

---
 .../builders/target_builders/html_builder.py  | 36 ++++++++++++++-----
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/disseminate/builders/target_builders/html_builder.py b/src/disseminate/builders/target_builders/html_builder.py
index 87ec56d..2950089 100644
--- a/src/disseminate/builders/target_builders/html_builder.py
+++ b/src/disseminate/builders/target_builders/html_builder.py
@@ -16,16 +16,25 @@ class HtmlBuilder(TargetBuilder):
     outfilepath_ext = '.html'
     ext_wildcards = {'*' + ext for ext in settings.tracked_deps['.html']}
 
+    _copy_builders = None
+
     def __init__(self, env, context, **kwargs):
         super().__init__(env=env, context=context, **kwargs)
+        self.add_copy_builders()
+
+    def add_copy_builders(self):
+        """Add copy builders for extra dependencies, like css files.
 
-        # Add copy builders for extra dependencies, like css files
+        The extra dependencies may change if the template is changed."""
+        env = self.env
         target_root = env.target_root
         cache_path = env.cache_path
         target = self.outfilepath_ext
 
+        previous_builders = self._copy_builders or dict()
+        copy_builders = dict()
+
         for ext in self.ext_wildcards:
-            copy_subbuilders = []
             for subbuilder in self.subbuilders:
                 # Get the filepaths found from the render builder. These
                 # should be copied over as needed. (ex: '.css' files)
@@ -33,6 +42,9 @@ class HtmlBuilder(TargetBuilder):
                              if filepath.match(ext)]
 
                 for filepath in filepaths:
+                    if filepath in previous_builders:
+                        copy_builders[filepath] = previous_builders[filepath]
+                        continue
                     subpath = filepath.subpath
 
                     # Place the copied file either in the target_root directory
@@ -47,10 +59,18 @@ class HtmlBuilder(TargetBuilder):
                                                  subpath=subpath)
 
                     # Create the copy builder and place it in the copy builders
-                    # list to be added to the parallel builder
-                    copy = Copy(env, parameters=filepath,
-                                outfilepath=target_filepath)
-                    copy_subbuilders.append(copy)
+                    # to be added to the parallel builder
+                    copy_builders[filepath] = Copy(env, parameters=filepath,
+                                                   outfilepath=target_filepath)
+
+        # Update the copy builders of the parallel builder
+        previous = list(previous_builders.values())
+        current = list(copy_builders.values())
+        subbuilders = self._parallel_builder.subbuilders
+        subbuilders[:] = [builder for builder in subbuilders
+                          if builder not in previous] + current
+        self._copy_builders = copy_builders
 
-            # Add these copy builders to the parallel builders
-            self._parallel_builder.subbuilders += copy_subbuilders
+    def build(self, complete=False):
+        self.add_copy_builders()
+        return super().build(complete=complete)
-- 
2.43.0


From e338bd08d896124fef42007b86c368665f5f302f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:36 +0000
Subject: [PATCH 52/80] fix: documents were not reloaded when the context file
 of their template changed

---
 src/disseminate/document/document.py          | 14 ++++++
 .../document/receivers/process_headers.py     | 49 +++++++++++++++++--
 2 files changed, 58 insertions(+), 5 deletions(-)

diff --git a/src/disseminate/document/document.py b/src/disseminate/document/document.py
index 24fdb51..5599da8 100644
--- a/src/disseminate/document/document.py
+++ b/src/disseminate/document/document.py
@@ -8,6 +8,7 @@ import pathlib
 
 from .document_context import DocumentContext
 from . import exceptions, signals
+from .receivers.process_headers import template_state
 from ..paths import SourcePath
 from .. import settings
 
@@ -67,6 +68,11 @@ class Document(object):
     #: to be sent (successfully) for a loaded document tree
     _tree_update_required = False
 
+    #: The name of the template when the document was loaded, and the state of
+    #: its files.
+    _template_name = None
+    _template_state = None
+
     def __init__(self, src_filepath, environment, parent_context=None,
                  level=1, held=None):
         logging.debug("Creating document: {}".format(src_filepath))
@@ -345,6 +351,12 @@ class Document(object):
                           "than this document.".format(self))
             return True
 
+        # 5. The template files that modify the context have been changed.
+        if self._template_state != template_state(self._template_name):
+            logging.debug("Load required for {}: The context files of the "
+                          "template have changed.".format(self))
+            return True
+
         return False
 
     def load(self, reload=False, level=1, held=None):
@@ -405,6 +417,8 @@ class Document(object):
                 self.context['mtime'] = parent_mtime
 
             # The document has been loaded
+            self._template_name = self.context.get('template')
+            self._template_state = template_state(self._template_name)
             self._succesfully_loaded = True
             document_loaded |= True
 
diff --git a/src/disseminate/document/receivers/process_headers.py b/src/disseminate/document/receivers/process_headers.py
index bbf5f59..d6dd5ea 100644
--- a/src/disseminate/document/receivers/process_headers.py
+++ b/src/disseminate/document/receivers/process_headers.py
@@ -47,11 +47,7 @@ def process_headers(context, **kwargs):
     #    templates. The template_name may be different from the header_context
     #    than the one specified in this context.
     template_name = header_context.get('template') or context.get('template')
-    template_paths = find_template_paths(template_name=template_name)
-
-    for template_path in list(template_paths):
-        template_paths += find_jinja2_parent_templates(template_path)
-    template_paths = uniq(template_paths)
+    template_paths = find_all_template_paths(template_name=template_name)
 
     # Next, find the additional context files and load their context values.
     # These are done in *reverse* order because the parent templates are
@@ -83,6 +79,49 @@ def process_headers(context, **kwargs):
     context.match_update(header_context, overwrite=True)
 
 
+def find_all_template_paths(template_name):
+    """Find template paths from a template name, including the paths of the
+    templates it extends.
+
+    Parameters
+    ----------
+    template_name : str
+        The name of the template. ex: books/tufte
+
+    Returns
+    -------
+    template_paths : List[:obj:`pathlib.Path`]
+        A list of template path directories for the template, followed by those
+        for the parent templates.
+    """
+    template_paths = find_template_paths(template_name=template_name)
+
+    for template_path in list(template_paths):
+        template_paths += find_jinja2_parent_templates(template_path)
+    return uniq(template_paths)
+
+
+def template_state(template_name):
+    """The state of the template files that modify the context of a document.
+
+    Parameters
+    ----------
+    template_name : str
+        The name of the template. ex: books/tufte
+
+    Returns
+    -------
+    state : Tuple[List[:obj:`pathlib.Path`], List[Tuple[\
+        :obj:`pathlib.Path`, int]]]
+        The template paths, and the additional context files with their
+        modification times.
+    """
+    template_paths = find_all_template_paths(template_name=template_name)
+    filepaths = find_additional_context_filepaths(template_paths[::-1])
+    return template_paths, [(filepath, filepath.stat().st_mtime_ns)
+                            for filepath in filepaths]
+
+
 def find_template_paths(template_name):
     """Find template paths from a template name.
 
-- 
2.43.0


From 8d20411b7d1a5398c7f415db0314242b629440d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:48 +0000
Subject: [PATCH 53/80] fix: files in the current directory took precedence
 over those in the paths of a document

---
 src/disseminate/paths/utils.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/disseminate/paths/utils.py b/src/disseminate/paths/utils.py
index b0dfa96..b6f9889 100644
--- a/src/disseminate/paths/utils.py
+++ b/src/disseminate/paths/utils.py
@@ -123,7 +123,8 @@ def find_file(path, context, raise_error=True):
     assert 'paths' in context and isinstance(context['paths'], list)
 
     # Prepare the parameters
-    if isinstance(path, str):
+    is_stub = isinstance(path, str)
+    if is_stub:
         path_strs = path.strip().splitlines()  # Keep only the first line
         path = pathlib.Path(path_strs[0] if path_strs else '')
 
@@ -134,10 +135,11 @@ def find_file(path, context, raise_error=True):
             raise FileNotFoundError(msg)
         return None
 
-    # See if the file is itself a valid file. This might fail if the string
-    # in the path would make a filename that is too long, raising an OSError
+    # See if it's an absolute file or a filepath that was already found. This
+    # might fail if the string in the path would make a filename that is too
+    # long, raising an OSError
     try:
-        if path.is_file():
+        if (path.is_absolute() or not is_stub) and path.is_file():
             return path
     except OSError as e:
         if raise_error:
@@ -150,8 +152,9 @@ def find_file(path, context, raise_error=True):
             raise FileNotFoundError(msg)
         return None
 
-    # Otherwise see if the path can be reconstructed
-    paths = ['.'] + context['paths']
+    # Otherwise see if the path can be reconstructed. The current directory is
+    # only used if the file isn't in the paths.
+    paths = context['paths'] + [pathlib.Path('.')]
     for p in paths:
         # Treat SourcePath and TargetPath in a special way to correctly set the
         # subpath
-- 
2.43.0


From 9a9c0246121120f5394ec94c78406d53f1b7caf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:06 +0000
Subject: [PATCH 54/80] fix: inline and external references in templates were
 taken as files

---
 .../builders/scanners/html_scanner.py            | 16 +++++++++++++---
 src/disseminate/builders/scanners/scanner.py     |  7 +++++--
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/disseminate/builders/scanners/html_scanner.py b/src/disseminate/builders/scanners/html_scanner.py
index 7d5cd45..ea97cf2 100644
--- a/src/disseminate/builders/scanners/html_scanner.py
+++ b/src/disseminate/builders/scanners/html_scanner.py
@@ -22,6 +22,10 @@ _re_html_img = regex.compile(r'<img\s+(?:[^>]*?\s+)?'
                              r'(.*?)'
                              r'[\"\']')
 
+#: regex for matching urls with a protocol or a host
+#: matches: 'https://test.com', '//test.com' and 'data:image/png;base64,'
+_re_url = regex.compile(r'\s*([a-zA-Z][a-zA-Z0-9+.\-]*:|//)')
+
 
 class HtmlScanner(Scanner):
     """A scanner for html files."""
@@ -40,9 +44,15 @@ class HtmlScanner(Scanner):
                 # Retrieve the link
                 link = match.groups()[0]
 
-                # Skip protocols; we're looking for actual files
-                if '://' in link:
+                # Skip urls with a protocol (ex: 'https:' or 'data:') or a
+                # host (ex: '//test.com') and template expressions;
+                # we're looking for actual files
+                if _re_url.match(link) or '{' in link or '}' in link:
                     continue
 
-                filepaths.append(link)
+                # Remove the query and fragment
+                link = link.split('#')[0].split('?')[0]
+
+                if link.strip():
+                    filepaths.append(link)
         return filepaths
diff --git a/src/disseminate/builders/scanners/scanner.py b/src/disseminate/builders/scanners/scanner.py
index 0d69422..5f03aef 100644
--- a/src/disseminate/builders/scanners/scanner.py
+++ b/src/disseminate/builders/scanners/scanner.py
@@ -99,20 +99,23 @@ class Scanner(object):
 
             for stub in stubs:
                 # Strip leading slashes so that the stub is not an absolute
-                # path
+                # path. Absolute stubs are first searched from the root.
+                is_absolute = stub.startswith('/')
                 stub = stub.strip('/')
 
                 test_paths = [SourcePath(project_root=root,
                                          subpath=subpath / stub),
                               SourcePath(project_root=root,
                                          subpath=stub)]
+                if is_absolute:
+                    test_paths.reverse()
                 valid_paths = [p for p in test_paths if p.is_file()]
 
                 # If no files are found, raise an exception
                 if not valid_paths and raise_error:
                     msg = "Could not find the file '{}' in paths: '{}'"
                     raise FileNotFoundError(msg.format(stub, test_paths))
-                else:
+                elif valid_paths:
                     new_infilepaths.append(valid_paths[0])
 
         return new_infilepaths
-- 
2.43.0


From 99088f19a120bdd2dbc67fa377efd1c9a2a2d83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:06 +0000
Subject: [PATCH 55/80] fix: templates that include themselves, optional or
 computed templates could not be built

---
 src/disseminate/builders/jinja_render.py | 27 ++++++++++++++++++------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/disseminate/builders/jinja_render.py b/src/disseminate/builders/jinja_render.py
index 4fdb949..b869956 100644
--- a/src/disseminate/builders/jinja_render.py
+++ b/src/disseminate/builders/jinja_render.py
@@ -310,7 +310,7 @@ class JinjaRender(Builder):
 
 # Utilities
 
-def template_filepaths(template, environment):
+def template_filepaths(template, environment, names=None):
     """Return a list of filepaths from a Jinja2 template object.
 
     Parameters
@@ -319,6 +319,8 @@ def template_filepaths(template, environment):
         The jinja2 template object to load filepaths for
     environment : :obj:`jinja2.Environment`
         The jinja2 environment object
+    names : Optional[Set[str]]
+        The names of templates that have already been processed.
 
     Returns
     -------
@@ -335,6 +337,10 @@ def template_filepaths(template, environment):
     # Get the template name
     name = template.name
 
+    # Each template is only needed once
+    names = set() if names is None else names
+    names.add(name)
+
     # Get the template's filename and add it to the filenames set
     template_filename = pathlib.Path(template.filename)
     filenames.append(SourcePath(project_root=template_filename.parent,
@@ -350,13 +356,20 @@ def template_filepaths(template, environment):
     parent_names = list(jinja2.meta.find_referenced_templates(ast))
 
     # Convert the parent names to template file paths (render paths)
-    # This is done by loading the parent template objects.
-    parent_templates = [environment.get_template(parent_name)
-                        for parent_name in parent_names]
+    # This is done by loading the parent template objects. Names that are only
+    # known on rendering (None) and templates that don't exist, which may be
+    # ignored by the template, don't have a file path.
+    for parent_name in parent_names:
+        if parent_name is None or parent_name in names:
+            continue
+
+        try:
+            parent_template = environment.get_template(parent_name)
+        except jinja2.TemplateNotFound:
+            continue
 
-    # Run this function on those templates
-    for parent_template in parent_templates:
-        filenames += template_filepaths(parent_template, environment)
+        # Run this function on those templates
+        filenames += template_filepaths(parent_template, environment, names)
 
     return filenames
 
-- 
2.43.0


From 6c96e63bc2f1c43a22669cf1f2447d4715da687a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:19 +0000
Subject: [PATCH 56/80] fix: templates that name other templates in single
 quotes could not be built

The tuple returned by the loader was parsed rather than the source of the
template, so that quotes in the template were escaped.
---
 src/disseminate/builders/jinja_render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disseminate/builders/jinja_render.py b/src/disseminate/builders/jinja_render.py
index b869956..5839c04 100644
--- a/src/disseminate/builders/jinja_render.py
+++ b/src/disseminate/builders/jinja_render.py
@@ -347,7 +347,7 @@ def template_filepaths(template, environment, names=None):
                                 subpath=template_filename.name))
 
     # Load the source code for the template using the loader
-    source = loader.get_source(environment, name)
+    source = loader.get_source(environment, name)[0]
 
     # Produce a Jinja2 AST from the source
     ast = environment.parse(source)
-- 
2.43.0


From cc3ae3599240e29d73f36fda2c17aa619b1dced8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:48 +0000
Subject: [PATCH 57/80] fix: tables lost rows and columns of their data

Blank lines around the data were taken as rows, data with a single row was
dropped, columns with the same name overwrote each other, and rows of
different lengths dropped the columns that weren't in all rows.
---
 src/disseminate/tags/data.py | 44 +++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/src/disseminate/tags/data.py b/src/disseminate/tags/data.py
index 60b3da5..9195901 100644
--- a/src/disseminate/tags/data.py
+++ b/src/disseminate/tags/data.py
@@ -45,6 +45,8 @@ class Data(Tag):
     data : Dict[Union[str, int], Tuple(str)]
         A data dict with the column names (str) or column index (int) as keys
         and the rows (tuple) as values.
+    column_names : Union[Tuple[Union[str, int]], None]
+        The column names (str) or column index (int) for all columns.
     processed_headers : Union[List[:obj:`tags.Tag`], None]
         The headers processed into tags
     processed_rows : List[List[:obj:`tags.tag`]]
@@ -55,6 +57,7 @@ class Data(Tag):
     process_content = False
 
     data = None
+    column_names = None
     processed_headers = None
     processed_rows = None
 
@@ -102,7 +105,8 @@ class Data(Tag):
     @property
     def headers(self):
         """The tuple of the data headers"""
-        return tuple(self.data.keys())
+        return (self.column_names if self.column_names is not None else
+                tuple(self.data.keys()))
 
     @property
     def rows(self):
@@ -150,30 +154,34 @@ class DelimData(Data):
             stream = load_io_stream(filepath_or_buffer, context=self.context)
 
             # Parse the csv data.
-            # first_row is an len(cols) list
             # rows is a len(rows) list of len(cols) lists
             csv_reader = csv.reader(stream, delimiter=delimiter,
                                     skipinitialspace=self.skipinitialspace)
-            first_row = next(csv_reader)
-            rows = [row for row in csv_reader]
+            # Lines without data, like the lines with the braces of the tag, are
+            # not rows.
+            rows = [row for row in csv_reader
+                    if len(row) > 1 or any(cell.strip() for cell in row)]
 
-            # Transpose the rows so that rows is a len(cols) list of len(rows)
+            # All rows have a cell for each column
+            num_cols = max(map(len, rows), default=0)
+            rows = [row + [''] * (num_cols - len(row)) for row in rows]
+
+            # Use the first row as the column names (header), or use the column
+            # numbers (no header)
+            has_header = 'noheader' not in self.attributes and len(rows) > 0
+            first_row = rows.pop(0) if has_header else range(num_cols)
+
+            # Transpose the rows so that cols is a len(cols) list of len(rows)
             # lists
-            rows = transpose(rows)
+            cols = transpose(rows) if rows else [[] for _ in first_row]
 
-            # Convert the rows into a data dict with the keys as column names
-            # (header) or column numbers (no header)
+            # Convert the columns into a data dict with the keys as column names
+            # (header) or column numbers (no header). Column names may be used
+            # by multiple columns; these columns are identified by number
             data = OrderedDict()
-
-            if 'noheader' in self.attributes:
-                # Prepend the first row to each row
-                for col_num, (first, row) in enumerate(zip(first_row, rows)):
-                    row.insert(0, first)
-                    data[col_num] = tuple(row)
-            else:
-                # Use the first_row as the column names
-                for first, row in zip(first_row, rows):
-                    data[first] = tuple(row)
+            for col_num, (name, col) in enumerate(zip(first_row, cols)):
+                data[name if name not in data else col_num] = tuple(col)
+            self.column_names = tuple(first_row)
 
             # Set the data attributes
             self.data = data
-- 
2.43.0


From 591b66a56bdea1b4d902081c2109f446ffa95247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:48 +0000
Subject: [PATCH 58/80] fix: the number of rows of data raised a TypeError

---
 src/disseminate/tags/data.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/disseminate/tags/data.py b/src/disseminate/tags/data.py
index 9195901..9e829ef 100644
--- a/src/disseminate/tags/data.py
+++ b/src/disseminate/tags/data.py
@@ -126,12 +126,10 @@ class Data(Tag):
 
     @property
     def num_rows(self):
-        """The number of columns in the data"""
+        """The number of rows in the data"""
         if self.data is None:
             return None
-        first_key = self.data.keys()[0]
-        first_row = self.data[first_key]
-        return len(first_row)
+        return max(map(len, self.data.values()), default=0)
 
 
 class DelimData(Data):
-- 
2.43.0


From 05f45ec5806b9162877258e4b1c78d830bb6b026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:01 +0000
Subject: [PATCH 59/80] fix: the @tsv tag separated values by commas

---
 src/disseminate/tags/data.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/tags/data.py b/src/disseminate/tags/data.py
index 9e829ef..8279246 100644
--- a/src/disseminate/tags/data.py
+++ b/src/disseminate/tags/data.py
@@ -133,14 +133,17 @@ class Data(Tag):
 
 
 class DelimData(Data):
-    """A container for delimiter data (ex: comma-separated values)"""
+    """A container for delimiter data (ex: comma-separated values for @csv and
+    tab-separated values for @tsv)"""
 
     active = True
     aliases = ('csv', 'tsv')
     delimiter = None
     skipinitialspace = True
 
-    def __init__(self, delimiter=',', *args, **kwargs):
+    def __init__(self, delimiter=None, *args, **kwargs):
+        if delimiter is None:
+            delimiter = '\t' if kwargs.get('name', None) == 'tsv' else ','
         self.delimiter = delimiter
         super().__init__(*args, **kwargs)
 
-- 
2.43.0


From da6f69fd89c853b48e6f508b2c8d37b77e0383ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:35 +0000
Subject: [PATCH 60/80] fix: changes in the files of @csv and code tags had no
 effect on a built project

---
 src/disseminate/builders/jinja_render.py |  8 +++++---
 src/disseminate/document/document.py     | 25 ++++++++++++++++++++++++
 src/disseminate/tags/code.py             | 15 +++++++++++++-
 src/disseminate/tags/data.py             | 12 +++++++++++-
 4 files changed, 55 insertions(+), 5 deletions(-)

diff --git a/src/disseminate/builders/jinja_render.py b/src/disseminate/builders/jinja_render.py
index 5839c04..a4bee4a 100644
--- a/src/disseminate/builders/jinja_render.py
+++ b/src/disseminate/builders/jinja_render.py
@@ -405,9 +405,11 @@ def project_filepaths(context):
     for tag in context.values():
         if not hasattr(tag, 'flatten'):
             continue
-        filepaths += [t.content_as_filepath()
-                      for t in tag.flatten(filter_tags=True)
-                      if hasattr(t, 'content_as_filepath')]
+        for t in tag.flatten(filter_tags=True):
+            if hasattr(t, 'content_as_filepath'):
+                filepaths.append(t.content_as_filepath())
+            if hasattr(t, 'content_files'):
+                filepaths += t.content_files()
 
     return [filepath for filepath in filepaths
             if filepath is not None and filepath.is_file()]
diff --git a/src/disseminate/document/document.py b/src/disseminate/document/document.py
index 5599da8..e7e726a 100644
--- a/src/disseminate/document/document.py
+++ b/src/disseminate/document/document.py
@@ -73,6 +73,9 @@ class Document(object):
     _template_name = None
     _template_state = None
 
+    #: The state of the files that were loaded as the contents of tags.
+    _content_state = None
+
     def __init__(self, src_filepath, environment, parent_context=None,
                  level=1, held=None):
         logging.debug("Creating document: {}".format(src_filepath))
@@ -357,8 +360,29 @@ class Document(object):
                           "template have changed.".format(self))
             return True
 
+        # 6. The files for the contents of tags have been changed.
+        if self._content_state != self.content_state():
+            logging.debug("Load required for {}: The files used by tags have "
+                          "changed.".format(self))
+            return True
+
         return False
 
+    def content_state(self):
+        """The state of the files that were loaded as the contents of tags.
+
+        Returns
+        -------
+        state : List[Tuple[:obj:`pathlib.Path`, int]]
+            The filepaths with their modification times.
+        """
+        tags = [t for tag in self.context.values() if hasattr(tag, 'flatten')
+                for t in tag.flatten(filter_tags=True)]
+        filepaths = [filepath for tag in tags if hasattr(tag, 'content_files')
+                     for filepath in tag.content_files()]
+        return [(filepath, filepath.stat().st_mtime_ns)
+                for filepath in filepaths]
+
     def load(self, reload=False, level=1, held=None):
         """Load or reload the document into the context.
 
@@ -419,6 +443,7 @@ class Document(object):
             # The document has been loaded
             self._template_name = self.context.get('template')
             self._template_state = template_state(self._template_name)
+            self._content_state = self.content_state()
             self._succesfully_loaded = True
             document_loaded |= True
 
diff --git a/src/disseminate/tags/code.py b/src/disseminate/tags/code.py
index 80f3a12..af39c62 100644
--- a/src/disseminate/tags/code.py
+++ b/src/disseminate/tags/code.py
@@ -24,16 +24,29 @@ class Code(Tag):
 
     html_name = 'code'
 
+    _file_content = None
+
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
 
         # Load files, if needed
-        files = find_files(self.content, self.context)
+        self._file_content = self.content
+        files = self.content_files()
 
         if len(files) > 0:
             new_content = "\n".join([file.read_text() for file in files])
             self.content = new_content
 
+    def content_files(self):
+        """The files for the content of this tag.
+
+        Returns
+        -------
+        filepaths : List[:obj:`pathlib.Path`]
+            The filepaths.
+        """
+        return find_files(self._file_content, self.context)
+
     @property
     def lexer(self):
         """Get the lexer for code highlighting."""
diff --git a/src/disseminate/tags/data.py b/src/disseminate/tags/data.py
index 8279246..259eab3 100644
--- a/src/disseminate/tags/data.py
+++ b/src/disseminate/tags/data.py
@@ -8,7 +8,7 @@ from collections import OrderedDict
 from .tag import Tag
 from .utils import format_content
 from ..utils.list import transpose
-from ..paths.utils import load_io_stream
+from ..paths.utils import load_io_stream, find_files
 from ..formats.xhtml import xhtml_tag
 from ..formats.tex import tex_cmd
 
@@ -68,6 +68,16 @@ class Data(Tag):
         # Load the content
         self.load(content)
 
+    def content_files(self):
+        """The files for the content of this tag.
+
+        Returns
+        -------
+        filepaths : List[:obj:`pathlib.Path`]
+            The filepaths.
+        """
+        return find_files(self.content, self.context)[:1]
+
     @abc.abstractmethod
     def load(self, filepath_or_buffer):
         """Load the dataframe from a filepath or a string buffer.
-- 
2.43.0


From 96756f317d7a5c9aa28a843a3c008c9e49d37cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:05 +0000
Subject: [PATCH 61/80] fix: the preview server showed source files outside the
 served directory

---
 src/disseminate/server/handlers/pygmentize.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/disseminate/server/handlers/pygmentize.py b/src/disseminate/server/handlers/pygmentize.py
index 3381b2a..6bff22c 100644
--- a/src/disseminate/server/handlers/pygmentize.py
+++ b/src/disseminate/server/handlers/pygmentize.py
@@ -1,11 +1,13 @@
 """
 A handler to pygmentize a source page
 """
+import os
 from pathlib import Path
 
 from pygments import highlight
 from pygments.lexers import get_lexer_for_filename
 from pygments.formatters import HtmlFormatter
+from tornado.web import HTTPError
 
 from .server import ServerHandler
 
@@ -14,6 +16,13 @@ class PygmentizeHandler(ServerHandler):
     """A handler to pygmentize source files"""
 
     def get(self, path):
+        # Only show files in the served (current) directory
+        filepath = os.path.abspath(path)
+        if not filepath.startswith(os.path.join(os.getcwd(), '')):
+            raise HTTPError(403, "%s is not in the served directory", path)
+        if not os.path.isfile(filepath):
+            raise HTTPError(404)
+
         # Get the appropriate lexer
         lexer = get_lexer_for_filename(path, stripall=True)
 
@@ -21,6 +30,6 @@ class PygmentizeHandler(ServerHandler):
         formatter = HtmlFormatter(linenos=True, cssclass="source", full=True)
 
         # Source file
-        code = Path(path).read_text()
+        code = Path(filepath).read_text()
 
         self.write(highlight(code, lexer, formatter))
-- 
2.43.0


From 53551d4d05a4480ef3371d8e08af1212f9192508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:05 +0000
Subject: [PATCH 62/80] fix: the preview server answered with outdated versions
 of changed files

---
 src/disseminate/server/app.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/disseminate/server/app.py b/src/disseminate/server/app.py
index 1ece965..52b7b1b 100644
--- a/src/disseminate/server/app.py
+++ b/src/disseminate/server/app.py
@@ -21,6 +21,7 @@ def get_app(in_path, out_dir, debug=False, **kwargs):
     """Create the Tornado app instance"""
     app = TornadoApp(in_path=in_path, out_dir=out_dir, debug=debug,
                      template_path=server_template_path,
+                     static_hash_cache=False,  # rendered files change
                      default_handler_class=ServerHandler)
     return app
 
-- 
2.43.0


From e98a287dcff9c071997b45dca6dff2b686029009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:06 +0000
Subject: [PATCH 63/80] fix: the preview server didn't update the xhtml, txt
 and pdf files of changed documents

---
 src/disseminate/server/urls.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/disseminate/server/urls.py b/src/disseminate/server/urls.py
index 7d9b52b..aa0f3b2 100644
--- a/src/disseminate/server/urls.py
+++ b/src/disseminate/server/urls.py
@@ -16,9 +16,7 @@ url_patterns = [
     url(r"/(.*\.dm)", PygmentizeHandler, name='disseminate_source'),
     url(r"/(.*\.tex)", PygmentizeHandler, name='latex_source',
         kwargs={'reload_projects': True}),
-    url(r"/(.*\.html)", CustomStaticFileHandler,
-        kwargs={'path': '.', 'reload_projects': True}),
-    url(r"/(.*\.epub)", CustomStaticFileHandler,
+    url(r"/(.*\.(?:html|xhtml|txt|pdf|epub))", CustomStaticFileHandler,
         kwargs={'path': '.', 'reload_projects': True}),
     url(r"/(.*)", CustomStaticFileHandler, {'path': '.'}),
 ]
-- 
2.43.0


From b37bce280c8af0a33498174de7f2841d0de7bae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:23 +0000
Subject: [PATCH 64/80] fix: errors of documents closed the connections of the
 preview server instead of being shown

---
 src/disseminate/server/handlers/server.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/server/handlers/server.py b/src/disseminate/server/handlers/server.py
index 199dc3d..626b6b7 100644
--- a/src/disseminate/server/handlers/server.py
+++ b/src/disseminate/server/handlers/server.py
@@ -23,10 +23,16 @@ class ServerHandler(RequestHandler):
     """A request handler for server functions"""
 
     def initialize(self, reload_projects=False, *args, **kwargs):
-        if reload_projects:
-            load_projects(self.application)
+        self.reload_projects = reload_projects
         super().initialize(*args, **kwargs)
 
+    def prepare(self):
+        # Load the projects here--exceptions in 'initialize' are not presented
+        # as error pages
+        if self.reload_projects:
+            load_projects(self.application)
+        super().prepare()
+
     def set_default_headers(self):
         # Disable mimetype sniffing/guessing to allow viewing of plain/text
         self.set_header('X-Content-Type-Options', 'nosniff')
-- 
2.43.0


From bf6860374d204420e614d465ce9d92af25295a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:54 +0000
Subject: [PATCH 65/80] fix: attributes for a target were ignored in html and
 xhtml

---
 src/disseminate/formats/xhtml.py   | 4 ++++
 src/disseminate/tags/featurebox.py | 8 ++++----
 src/disseminate/tags/figs.py       | 5 +++--
 src/disseminate/tags/img.py        | 2 +-
 src/disseminate/tags/table.py      | 2 +-
 src/disseminate/tags/text.py       | 2 +-
 6 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/disseminate/formats/xhtml.py b/src/disseminate/formats/xhtml.py
index fed055b..a4ebbcf 100644
--- a/src/disseminate/formats/xhtml.py
+++ b/src/disseminate/formats/xhtml.py
@@ -43,6 +43,7 @@ def xhtml_tag(name, attributes=None, formatted_content=None, level=1,
         The level of the tag.
     target : Optional[str]
         If speficied, filter the attributes that match the given target.
+        Otherwise the target of the method, html or xhtml, is used.
     method : Optional[str]
         The rendering method. 'html', 'xhtml' or 'xml'
     nsmap : Optional[dict]
@@ -69,6 +70,9 @@ def xhtml_tag(name, attributes=None, formatted_content=None, level=1,
     >>> xhtml_tag('img', attributes="src='test.svg'", method='xml')
     Markup('<img src="test.svg"/>\n')
     """
+    # Use the entries for the rendered target, unless another is specified
+    if target is None:
+        target = 'html' if method == 'html' else 'xhtml'
     method = 'xml' if method == 'xhtml' else method
 
     # See if the tag is permitted
diff --git a/src/disseminate/tags/featurebox.py b/src/disseminate/tags/featurebox.py
index 95ea58b..1f461b1 100644
--- a/src/disseminate/tags/featurebox.py
+++ b/src/disseminate/tags/featurebox.py
@@ -27,14 +27,14 @@ class FeatureBox(Tag):
     def __init__(self, name, *args, **kwargs):
         super().__init__(name='featurebox', *args, **kwargs)
 
-    def html_fmt(self, attributes=None, **kwargs):
-        attributes = (self.attributes.copy() if attributes is None else
-                      attributes)
+    def html_fmt(self, attributes=None, method='html', **kwargs):
+        attributes = self.attributes if attributes is None else attributes
+        attributes = attributes.filter(target=method)
 
         # Add the html attribute
         attributes['class'] = (attributes['class'] + " " + self.html_classes
                                if 'class' in attributes else self.html_classes)
-        return super().html_fmt(attributes=attributes, **kwargs)
+        return super().html_fmt(attributes=attributes, method=method, **kwargs)
 
 
 class ExampleBox(FeatureBox):
diff --git a/src/disseminate/tags/figs.py b/src/disseminate/tags/figs.py
index edd859a..6f0d4de 100644
--- a/src/disseminate/tags/figs.py
+++ b/src/disseminate/tags/figs.py
@@ -46,7 +46,7 @@ class BaseFigure(Tag):
             caption.create_label()
 
     def html_fmt(self, attributes=None, method='html', **kwargs):
-        attrs = attributes or self.attributes.copy()
+        attrs = (attributes or self.attributes).filter(target=method)
 
         # Set the html class
         if self.html_class is not None:
@@ -109,8 +109,9 @@ class Panel(Tag):
         return strip_multi_newlines(env).strip()
 
     def html_fmt(self, attributes=None, method='html', **kwargs):
-        attrs = self.attributes.copy() if attributes is None else attributes
         target = '.' + method if not method.startswith('.') else method
+        attrs = self.attributes if attributes is None else attributes
+        attrs = attrs.filter(target=target)
 
         # Format the html classes
         attrs['class'] = 'panel'
diff --git a/src/disseminate/tags/img.py b/src/disseminate/tags/img.py
index 5b30bc7..0e44ccd 100644
--- a/src/disseminate/tags/img.py
+++ b/src/disseminate/tags/img.py
@@ -203,7 +203,7 @@ class Img(Tag):
         url = outfilepath.get_url(context=self.context, target=target)
 
         # Format the width and attributes
-        attrs = attributes or self.attributes.copy()
+        attrs = (attributes or self.attributes).filter(target=target)
         attrs = xhtml_percentwidth(attrs, target=target)
         attrs['src'] = url
 
diff --git a/src/disseminate/tags/table.py b/src/disseminate/tags/table.py
index e14fa60..dc7d50f 100644
--- a/src/disseminate/tags/table.py
+++ b/src/disseminate/tags/table.py
@@ -71,7 +71,7 @@ class BaseTable(Tag):
                  method='html', level=1, **kwargs):
         # Setup the html class, if specified
         attributes = (attributes if attributes is not None else
-                      self.attributes.filter(target='.html'))
+                      self.attributes.filter(target=method))
         if self.html_class is not None:
             if 'class' in attributes:
                 attributes['class'] += " " + self.html_class
diff --git a/src/disseminate/tags/text.py b/src/disseminate/tags/text.py
index 2ed410d..42b1bcc 100644
--- a/src/disseminate/tags/text.py
+++ b/src/disseminate/tags/text.py
@@ -215,7 +215,7 @@ class Supsub(Tag):
 
     def html_fmt(self, content=None, attributes=None, format_func='html_fmt',
                  method='html', level=1, **kwargs):
-        attrs = attributes or self.attributes.copy()
+        attrs = (attributes or self.attributes).filter(target=method)
         attrs['class'] = 'supsub'
         br_tag = xhtml_tag(name='br', method=method, level=level + 1)
         return xhtml_tag(name='span', attributes=attrs,
-- 
2.43.0


From a0d744f35f452cf3eb3323491affe52624bbba36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:55 +0000
Subject: [PATCH 66/80] fix: the html class of a figure was lost

---
 src/disseminate/tags/figs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disseminate/tags/figs.py b/src/disseminate/tags/figs.py
index 6f0d4de..f7bd9a1 100644
--- a/src/disseminate/tags/figs.py
+++ b/src/disseminate/tags/figs.py
@@ -51,7 +51,7 @@ class BaseFigure(Tag):
         # Set the html class
         if self.html_class is not None:
             if 'class' in attrs:
-                attrs['class'] = ' ' + self.html_class
+                attrs['class'] += ' ' + self.html_class
             else:
                 attrs['class'] = self.html_class
         return super().html_fmt(attributes=attrs, method=method, **kwargs)
-- 
2.43.0


From 01db5d5a863a01bcdc17387abceafe799ddc4e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:55 +0000
Subject: [PATCH 67/80] fix: headings without labels were empty in tex

---
 src/disseminate/tags/headings.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/disseminate/tags/headings.py b/src/disseminate/tags/headings.py
index c78fb95..7994039 100644
--- a/src/disseminate/tags/headings.py
+++ b/src/disseminate/tags/headings.py
@@ -87,6 +87,9 @@ class Heading(Tag, LabelMixin):
         if self.label_tag is not None:
             content += self.label_tag.tex_fmt(mathmode=mathmode,
                                               level=level + 1)
+        else:
+            content += content_to_str(self.content, target='.tex',
+                                      mathmode=mathmode, level=level + 1)
 
         # Format the heading tag. ex: \chapter{Chapter 1. My First Chapter}
         content = tex_cmd(cls_name, attributes=attributes,
-- 
2.43.0


From e663de13efb01bf573576f37dc7180fc50128da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:55 +0000
Subject: [PATCH 68/80] fix: widths of 34%, and widths for tex only, were not
 converted

---
 src/disseminate/tags/utils.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/disseminate/tags/utils.py b/src/disseminate/tags/utils.py
index e742e5a..8af6621 100644
--- a/src/disseminate/tags/utils.py
+++ b/src/disseminate/tags/utils.py
@@ -227,9 +227,10 @@ def tex_percentwidth(attributes, target='.tex', use_positional=False):
                   if not isinstance(attributes, Attributes) else attributes)
 
     # Convert the width to a number between 0 and 100
-    width = attributes.get('width', target=target)
-    if width is None:
+    item = attributes.find_item('width', target=target)
+    if item is None:
         return attributes
+    key, width = item
 
     percent_width = percentage(width)  # width from 0 to 100
 
@@ -237,7 +238,7 @@ def tex_percentwidth(attributes, target='.tex', use_positional=False):
     windows = {99: (75, 100),  # ]75, 100]
                74: (67, 75),
                65: (50, 67),
-               49: (34, 50),
+               49: (33, 50),
                32: (25, 33),
                24: (0, 25)}
 
@@ -253,13 +254,13 @@ def tex_percentwidth(attributes, target='.tex', use_positional=False):
         if use_positional:
             attributes[str] = StringPositionalValue
         else:
-            attributes['width'] = str
+            attributes[key] = str
     else:
         str = "{}".format(width)
         if use_positional:
             attributes[str] = StringPositionalValue
         else:
-            attributes['width'] = str
+            attributes[key] = str
 
     return attributes
 
@@ -306,7 +307,7 @@ def xhtml_percentwidth(attributes, target='.html'):
     windows = {'w100': (75, 100),  # ]75, 100]
                'w75': (67, 75),
                'w66': (50, 67),
-               'w50': (34, 50),
+               'w50': (33, 50),
                'w33': (25, 33),
                'w25': (0, 25)}
 
-- 
2.43.0


From f04685f2337970e709fad7734ae66a429d5d2ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:55 +0000
Subject: [PATCH 69/80] fix: html_tag called itself without end

---
 src/disseminate/formats/xhtml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disseminate/formats/xhtml.py b/src/disseminate/formats/xhtml.py
index a4ebbcf..c51a099 100644
--- a/src/disseminate/formats/xhtml.py
+++ b/src/disseminate/formats/xhtml.py
@@ -19,7 +19,7 @@ class XHtmlFormatError(FormattingError):
 
 
 def html_tag(*args, **kwargs):
-    return html_tag(*args, **kwargs, method='html')
+    return xhtml_tag(*args, **kwargs, method='html')
 
 
 def xml_tag(*args, **kwargs):
-- 
2.43.0


From c3ac2f6f9ba18e470fc375f669d0b1da1a59545a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:52 +0000
Subject: [PATCH 70/80] fix: verbatim text with |, ! and ^ wasn't verbatim in
 tex

---
 src/disseminate/formats/tex.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/disseminate/formats/tex.py b/src/disseminate/formats/tex.py
index d56ee94..9286920 100644
--- a/src/disseminate/formats/tex.py
+++ b/src/disseminate/formats/tex.py
@@ -197,10 +197,8 @@ def tex_verb(formatted_content):
     """
     assert isinstance(formatted_content, str)
 
-    if '|' not in formatted_content:
-        return "\\verb|" + formatted_content + "|"
-    elif '!' not in formatted_content:
-        return "\\verb!" + formatted_content + "!"
-    elif '^' not in formatted_content:
-        return "\\verb^" + formatted_content + "^"
+    # Use a delimiter that isn't in the content
+    for delimiter in '|!^+=/:;?"@`.,-':
+        if delimiter not in formatted_content:
+            return "\\verb" + delimiter + formatted_content + delimiter
     return formatted_content
-- 
2.43.0


From bd727774151cbf0256db0d672e72de3b7997a440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:35 +0000
Subject: [PATCH 71/80] fix: an epub was never built again once its content.opf
 existed

---
 src/disseminate/builders/xhtml2epub.py | 70 +++++++++++++++++++-------
 1 file changed, 51 insertions(+), 19 deletions(-)

diff --git a/src/disseminate/builders/xhtml2epub.py b/src/disseminate/builders/xhtml2epub.py
index eedb186..f3f1a80 100644
--- a/src/disseminate/builders/xhtml2epub.py
+++ b/src/disseminate/builders/xhtml2epub.py
@@ -59,6 +59,11 @@ class XHtml2Epub(SequentialBuilder):
     def parameters(self):
         parameters = SequentialBuilder.parameters.fget(self)
 
+        # Add the files the xhtml files use, like images, once these are
+        # rendered
+        parameters += self.env.scanner.scan(parameters=parameters,
+                                            raise_error=False)
+
         # The parameters may included multiple references to the same files,
         # like css files, when building a tree. Remove these
         filtered_parameters = []
@@ -99,12 +104,20 @@ class XHtml2Epub(SequentialBuilder):
                      [fp for fp in fps if fp.name == 'toc.xhtml'])
         fps = front_fps + [fp for fp in fps if fp not in front_fps]
 
-        render_context = (self._render_context or
-                          self.context.filter(['paths', 'title', 'date',
-                                               'epub']))
+        keys = ['paths', 'title', 'date', 'epub']
+        if self._render_context is None:
+            self._render_context = self.context.filter(keys)
+        render_context = self._render_context
+
+        # Use the current entries of the document
+        for key in keys:
+            render_context.pop(key, None)
+        render_context.match_update(changes=self.context, keys=keys)
+
         render_context['template'] = template_name
         render_context['xhtml_files'] = self.filepath_dict_list(fps, '.xhtml')
         render_context['svg_files'] = self.filepath_dict_list(fps, '.svg')
+        render_context['png_files'] = self.filepath_dict_list(fps, '.png')
         render_context['css_files'] = self.filepath_dict_list(fps, '.css')
 
         # Add required entries, if not present
@@ -114,8 +127,6 @@ class XHtml2Epub(SequentialBuilder):
         render_context.setdefault('title', 'Default Title')
         render_context.setdefault('date', date_str)
 
-        self._render_context = render_context
-
         # Set the outfilepath for the content.opf
         outfilepath = self.outfilepath
         outfilepath = outfilepath.use_subpath('content.opf')
@@ -129,42 +140,65 @@ class XHtml2Epub(SequentialBuilder):
     def filepath_dict_list(self, filepaths, suffix):
         """Create a list of dicts from the given filepaths"""
         rv = []
+        ids = set()
         for filepath in filepaths:
             if filepath.suffix != suffix:
                 continue
 
             # Is the filepath a toc file?
-            is_toc = filepath.name == self.toc_filename
+            is_toc = str(filepath.subpath) == self.toc_filename
 
             # Generate the subpath for the file, as this is the relative
             # path in the epub container. Make sure to strip '..' relpath
             # elements, as this can create compatibility issues.
             subpath = str(os.path.normpath(filepath.subpath))
 
-            # Generate the navigation identifier for the file
-            id = slugify(subpath) if not is_toc else 'toc'
+            # Generate the navigation identifier for the file, which should
+            # be unique in the content.opf file and start with a letter
+            id = 'toc' if is_toc else slugify(subpath)
+            id = id if id[:1].isalpha() else 'id-' + id
+            base_id, number = id, 1
+            while not is_toc and (id == 'toc' or id in ids):
+                number += 1
+                id = "{}-{}".format(base_id, number)
+            ids.add(id)
 
             rv.append({'id': id,
                        'subpath': subpath,
                        'is_toc': is_toc})
         return rv
 
-    def build(self, complete=False):
-        # Scan for additional dependencies. This is done during the build,
-        # rather during __init__ (as is usually done), because the xhtml
-        # files might not have been created until a previous builder has
-        # built them
-        self.scan_parameters()
+    @property
+    def decision_inputs(self):
+        # The entries and the order of files in the content.opf file
+        entries = [(key, self.context.get(key, None))
+                   for key in ('title', 'date', 'epub')]
+        entries += [str(getattr(filepath, 'subpath', filepath))
+                    for filepath in self.infilepaths]
+        return super().decision_inputs + [repr(entries)]
 
-        # Build subbuilders first
-        super().build(complete=complete)
+    @property
+    def status(self):
+        status = SequentialBuilder.status.fget(self)
+        if status != 'done':
+            return status
+        if self.missing_parameters:
+            return 'missing (parameters)'
+        return 'ready' if self.build_needed() else 'done'
 
+    def build(self, complete=False):
         context = self.context
         outfilepath = self.outfilepath
         root_path = pathlib.Path('.')  # Base path for zip file
 
         logging.debug("Creating epub file '{}'".format(outfilepath))
 
+        # Create and build the content.opf, which depends on the files the xhtml
+        # files use
+        builder = self.create_opf_builder()
+        assert builder.build(complete=True)
+        self.subbuilders[:] = [builder]
+
         # Create the epub
         with zipfile.ZipFile(outfilepath, 'w',
                              compression=zipfile.ZIP_DEFLATED) as epub:
@@ -181,9 +215,7 @@ class XHtml2Epub(SequentialBuilder):
             epub.write(contain_file,
                        arcname=root_path / 'META-INF' / 'container.xml')
 
-            # Create a builder for the content.opf
-            builder = self.create_opf_builder()
-            assert builder.build(complete=True)
+            # Add the content.opf
             arc_name = self.package_subdir / builder.outfilepath.subpath
             epub.write(builder.outfilepath, arcname=arc_name)
 
-- 
2.43.0


From 87d98d8dff65a59dab68852a785b0e583a60d6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:35 +0000
Subject: [PATCH 72/80] fix: the navigation of an epub was the one of the first
 build

---
 .../builders/target_builders/epub_builder.py  | 38 +++++++++++++------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/disseminate/builders/target_builders/epub_builder.py b/src/disseminate/builders/target_builders/epub_builder.py
index 8b0a31f..9e19ef9 100644
--- a/src/disseminate/builders/target_builders/epub_builder.py
+++ b/src/disseminate/builders/target_builders/epub_builder.py
@@ -77,7 +77,7 @@ class EpubBuilder(TargetBuilder):
     def has_toc_xhtml(self, xhtml_filepaths=None):
         """Evaluates whether there is a toc.xhtml file in the xhtml files."""
         xhtml_filepaths = xhtml_filepaths or self.xhtml_filepaths()
-        return any(filepath.subpath == 'toc.xhtml'
+        return any(str(filepath.subpath) == 'toc.xhtml'
                    for filepath in xhtml_filepaths)
 
     def create_toc_xhtml_builder(self, context=None,
@@ -104,15 +104,31 @@ class EpubBuilder(TargetBuilder):
         # Create a mock "toc" document for the toc_xhtml_builder.
         # This will require a new context (render_context), owned by this
         # builder so that the render builder can hold a weakref to it.
-        render_context = context.filter(['toc', 'label_manager',
-                                         'root_document', 'relative_links'])
+        render_context = context.filter(['label_manager', 'root_document',
+                                         'relative_links'])
         self._render_toc_context = render_context
-
-        # Modify the new context and toc tag to mock a new toc document
-        toc = render_context['toc'].copy()
         render_context['template'] = template_name
-        render_context['toc'] = toc
         render_context['doc_id'] = 'toc.dm'
+        self.update_toc_context(context=context)
+
+        builder = builder_cls(env=self.env, context=render_context,
+                              outfilepath=outfilepath, render_ext='.xhtml',
+                              use_media=False, use_cache=True, target='xhtml')
+
+        # The entries depend on the documents in the project
+        builder.render_project = True
+        return builder
+
+    def update_toc_context(self, context=None):
+        """Update the toc of the mock "toc" document to the current toc of the
+        document, which changes when the document is loaded."""
+        context = context or self.context
+        render_context = self._render_toc_context
+        if render_context is None:
+            return None
+
+        toc = context['toc'].copy()
+        render_context['toc'] = toc
 
         toc.doc_id = 'toc.dm'
         toc.context = render_context
@@ -123,10 +139,10 @@ class EpubBuilder(TargetBuilder):
         if len(toc.get_labels()) == 0:
             toc.toc_kind = ('all', 'documents', 'expanded')
 
-        builder = builder_cls(env=self.env, context=render_context,
-                              outfilepath=outfilepath, render_ext='.xhtml',
-                              use_media=False, use_cache=True, target='xhtml')
-        return builder
+    @property
+    def status(self):
+        self.update_toc_context()
+        return TargetBuilder.status.fget(self)
 
     def create_subbuilders(self):
         """Create subbuilders needed by this builder"""
-- 
2.43.0


From 389b3c9bdfe9d9bcd3cf4b081a084b92dfb7d4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:35 +0000
Subject: [PATCH 73/80] fix: content.opf with unescaped titles, urls and
 without png images

---
 .../templates/default/xhtml/content.opf           | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/disseminate/templates/default/xhtml/content.opf b/src/disseminate/templates/default/xhtml/content.opf
index a0a5c4f..5c649be 100644
--- a/src/disseminate/templates/default/xhtml/content.opf
+++ b/src/disseminate/templates/default/xhtml/content.opf
@@ -6,9 +6,9 @@
   <metadata xmlns:dc="http://purl.org/dc/elements/1.1/">
     <!-- Required Fields -->
     <dc:identifier id="pub-id">urn:uuid:{{uuid}}</dc:identifier>
-    <dc:title>{{ title }}</dc:title>
+    <dc:title>{{ title|e }}</dc:title>
     <dc:language>en</dc:language>
-    <meta property="dcterms:modified">{{ date }}</meta>
+    <meta property="dcterms:modified">{{ date|e }}</meta>
 
     <!-- Optional Fields -->
     {%- if epub is defined and epub.layout == "fixed" %}
@@ -48,21 +48,26 @@
   <manifest>
     <!-- Main content files in ebook -->
     {%- for file in xhtml_files %}
-    <item href="{{ file.subpath }}"
+    <item href="{{ file.subpath|urlencode }}"
           id="{{ file.id }}"
           media-type="application/xhtml+xml"{% if file.is_toc %} properties="nav"{% endif %}/>
     {%- endfor %}
     <!-- Media files -->
     {%- for file in css_files %}
-    <item href="{{ file.subpath }}"
+    <item href="{{ file.subpath|urlencode }}"
           id="{{ file.id }}"
           media-type="text/css"/>
     {%- endfor %}
     {%- for file in svg_files %}
-    <item href="{{ file.subpath }}"
+    <item href="{{ file.subpath|urlencode }}"
           id="{{ file.id }}"
           media-type="image/svg+xml"/>
     {%- endfor %}
+    {%- for file in png_files %}
+    <item href="{{ file.subpath|urlencode }}"
+          id="{{ file.id }}"
+          media-type="image/png"/>
+    {%- endfor %}
   </manifest>
   <spine>
     <!-- The default reading order of elements -->
-- 
2.43.0


From 663d78e75ae0da4dab9294498c043cbefb51c119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:35 +0000
Subject: [PATCH 74/80] fix: titles with < or & gave malformed xhtml pages

---
 src/disseminate/templates/default/xhtml/template.xhtml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disseminate/templates/default/xhtml/template.xhtml b/src/disseminate/templates/default/xhtml/template.xhtml
index e9fe632..a6110be 100644
--- a/src/disseminate/templates/default/xhtml/template.xhtml
+++ b/src/disseminate/templates/default/xhtml/template.xhtml
@@ -3,7 +3,7 @@
 <html xmlns="http://www.w3.org/1999/xhtml" xml:lang="en"
       xmlns:epub="http://www.idpf.org/2007/ops"  lang="en">
   <head>
-    <title>{{ title|default("Document Title") }}</title>
+    <title>{{ title|default("Document Title")|e }}</title>
     {%- block css %}
     <link rel="stylesheet" href="{{ "/media/css/epub.css" | rewrite_path }}"/>
     {% endblock %}
-- 
2.43.0


From 044a564c3cd7b0224b9f80c8058a71f698ae13e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:35 +0000
Subject: [PATCH 75/80] fix: files with a space or & in their name were not
 found in rendered files

---
 src/disseminate/builders/scanners/scanner.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/disseminate/builders/scanners/scanner.py b/src/disseminate/builders/scanners/scanner.py
index 5f03aef..bd40b32 100644
--- a/src/disseminate/builders/scanners/scanner.py
+++ b/src/disseminate/builders/scanners/scanner.py
@@ -1,6 +1,9 @@
 """
 A scanner object to find implicit dependencies.
 """
+from html import unescape
+from urllib.parse import unquote
+
 from ...paths import SourcePath, TargetPath
 from ...utils.classes import all_subclasses
 
@@ -109,6 +112,14 @@ class Scanner(object):
                                          subpath=stub)]
                 if is_absolute:
                     test_paths.reverse()
+
+                # The names may be quoted, like urls in rendered files
+                unquoted = unquote(unescape(stub))
+                if unquoted != stub:
+                    test_paths += [SourcePath(project_root=root,
+                                              subpath=subpath / unquoted),
+                                   SourcePath(project_root=root,
+                                              subpath=unquoted)]
                 valid_paths = [p for p in test_paths if p.is_file()]
 
                 # If no files are found, raise an exception
-- 
2.43.0


From 44cf0838b5c640a7790454f1edc46dd4ecf93b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:36 +0000
Subject: [PATCH 76/80] fix: documents included by another document were built
 as projects of their own

---
 src/disseminate/builders/environment.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/disseminate/builders/environment.py b/src/disseminate/builders/environment.py
index 91c6f8b..be05c83 100644
--- a/src/disseminate/builders/environment.py
+++ b/src/disseminate/builders/environment.py
@@ -194,9 +194,20 @@ class Environment(object):
                           document_extension=document_extension)
             src_filepaths = fps
 
-        return [Environment(src_filepath=src_filepath, target_root=target_root)
+        envs = [Environment(src_filepath=src_filepath, target_root=target_root)
                 for src_filepath in src_filepaths]
 
+        # Documents that are included by another root document aren't root
+        # documents themselves
+        for env in list(envs):
+            filepath = env.root_document.src_filepath
+            included = chain(*[other.root_document.documents_list(recursive=True)
+                               for other in envs if other is not env])
+            if any(doc.src_filepath == filepath for doc in included):
+                envs.remove(env)
+
+        return envs
+
     def create_root_builder(self, document=None):
         """Create a root parallel builder for the target builders of the given
         document or the root document.
-- 
2.43.0


From 7e13de5f23a95f4bb385e885d08d9b5a5cbc77b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:32 +0000
Subject: [PATCH 77/80] fix: bold terms and the same equations shared one image

---
 src/disseminate/tags/eqs.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/disseminate/tags/eqs.py b/src/disseminate/tags/eqs.py
index 9e47d7d..4e28477 100644
--- a/src/disseminate/tags/eqs.py
+++ b/src/disseminate/tags/eqs.py
@@ -4,6 +4,7 @@ Tags to render equations
 from .img import Img
 from .utils import content_to_str
 from ..formats import tex_cmd, tex_env
+from ..utils.types import StringPositionalValue
 
 
 class Eq(Img):
@@ -110,6 +111,10 @@ class Eq(Img):
         attrs['crop'] = (100, 100, 0, 0)
         attrs['offset'] = (0, 0, -1, 0)
 
+        # The image of a bold term is not the image of the same equation
+        if self.name == 'termb':
+            attrs['bold'] = StringPositionalValue
+
         if self.block_equation:
             attrs['class'] = 'eq blockeq'
         else:
-- 
2.43.0


From e852c51a06c29af2da15ae5be8c4e9b2c2cfd863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:32 +0000
Subject: [PATCH 78/80] fix: scaling an image made from a cached file never
 ended

---
 src/disseminate/builders/pdf2svg.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/disseminate/builders/pdf2svg.py b/src/disseminate/builders/pdf2svg.py
index d0d22e4..c632cea 100644
--- a/src/disseminate/builders/pdf2svg.py
+++ b/src/disseminate/builders/pdf2svg.py
@@ -71,6 +71,9 @@ class Pdf2SvgCropScale(SequentialBuilder):
 
         scale = self.get_parameter('scale', *parameters)
         if scale is not None:
+            # The svg to scale and the final svg (which may be in the cache
+            # too) should be different files
+            pdf2svg.outfilepath_append = '_unscaled'
             scalesvg = ScaleSvg(env, parameters=parameters, use_cache=True,
                                 **kwargs)
             subbuilders.append(scalesvg)
-- 
2.43.0


From 09237c6358d2bdf9c114a0487d19655da8050aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:32 +0000
Subject: [PATCH 79/80] fix: the page of a pdf to show was ignored

---
 src/disseminate/builders/pdf2svg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/builders/pdf2svg.py b/src/disseminate/builders/pdf2svg.py
index c632cea..b2b8fe0 100644
--- a/src/disseminate/builders/pdf2svg.py
+++ b/src/disseminate/builders/pdf2svg.py
@@ -33,7 +33,7 @@ class Pdf2svg(Builder):
     def run_cmd_args(self):
         args = list(super().run_cmd_args())
         if isinstance(self.page_no, int):
-            args += [self.page_no]
+            args += [str(self.page_no)]
         return tuple(args)
 
 
@@ -66,7 +66,8 @@ class Pdf2SvgCropScale(SequentialBuilder):
                               **kwargs)
             subbuilders.append(pdfcrop)
 
-        pdf2svg = Pdf2svg(env, use_cache=True, **kwargs)
+        # The page number is needed by the converter on creation
+        pdf2svg = Pdf2svg(env, parameters=parameters, use_cache=True, **kwargs)
         subbuilders.append(pdf2svg)
 
         scale = self.get_parameter('scale', *parameters)
-- 
2.43.0


From bacc0d006eb3715261f1fa10b2e8f248c35c3601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:16 +0000
Subject: [PATCH 80/80] fix: edited images weren't converted again by a kept
 builder

---
 .../builders/composite_builders/parallel_builder.py         | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/disseminate/builders/composite_builders/parallel_builder.py b/src/disseminate/builders/composite_builders/parallel_builder.py
index 8ee8d3d..8bf9673 100644
--- a/src/disseminate/builders/composite_builders/parallel_builder.py
+++ b/src/disseminate/builders/composite_builders/parallel_builder.py
@@ -90,6 +90,12 @@ class ParallelBuilder(CompositeBuilder):
                               outfilepath=outfilepath, context=context,
                               target=target, **kwargs)
 
+        # If the builder is kept once it's done, it should keep its own
+        # subbuilders too. Otherwise it can't be built again.
+        if isinstance(builder, CompositeBuilder) and not self.clear_done:
+            for subbuilder in builder.flatten():
+                subbuilder.clear_done = False
+
         self.subbuilders.append(builder)
 
         return builder
-- 
2.43.0

