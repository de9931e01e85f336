From d65f84f5e6ae8be61ddc6fefea8804227b9dac31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:33 +0000
Subject: [PATCH 01/76] fix: accept any amount of white space before '>' in a
 closing tag

---
 src/axl_doc.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index 3e65744..495091d 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -1069,10 +1069,11 @@ axl_bool __axl_doc_parse_close_node (axlStream * stream, axlDoc * doc, axlNode *
 	}
 
 	/* check for optional white space inside the trailing result */
-	if (axl_stream_is_white_space (string + result_size - 1)) {
+	while (result_size > 0 && axl_stream_is_white_space (string + result_size - 1)) {
 		/* nullify to remove the optional white spaces */
-		string [result_size - 1] = 0;
-	} /* end if */
+		result_size--;
+		string [result_size] = 0;
+	} /* end while */
 
 	/* get current parent node */
 	node   = axl_stack_peek (doc->parentNode);
-- 
2.43.0


From 2a03d9e05045c5b9e62ee2173aae05457469d69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:18 +0000
Subject: [PATCH 02/76] fix: track xml:space once for each element, not once
 for each attribute

---
 src/axl_doc.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index 495091d..66de495 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -864,6 +864,11 @@ axl_bool __axl_doc_parse_node (axlStream   * stream,
 	if (calling_node != NULL)
 		*calling_node = node;
 
+	/* make the node to inherit, by default, the xml:space
+	 * configuration from its parent (one entry for each node
+	 * opened) */
+	axl_binary_stack_push (doc->xmlPreserve, axl_binary_stack_peek (doc->xmlPreserve));
+
 	/* only consume white spaces if matched_chunk is 2 */
 	if (matched_chunk == 2) {
 		/* get rid from spaces */
@@ -899,6 +904,9 @@ axl_bool __axl_doc_parse_node (axlStream   * stream,
 			 * could be set. */
 			axl_stack_pop (doc->parentNode);
 
+			/* restore previous xml:space value */
+			axl_binary_stack_pop (doc->xmlPreserve);
+
 			/* set the parent node to receive all content
 			 * found in the next parsing elements because
 			 * the element found is totally empty */
@@ -1005,6 +1013,7 @@ axl_bool __axl_doc_parse_node (axlStream   * stream,
 					/* 1: xml:space=preserve (found)
 					 * make current node and all its childs to preserve (by
 					 * default) all white spaces found */
+					axl_binary_stack_pop  (doc->xmlPreserve);
 					axl_binary_stack_push (doc->xmlPreserve, axl_true);
 
 				} else if (axl_cmp (string_aux2, "default")) {
@@ -1013,6 +1022,7 @@ axl_bool __axl_doc_parse_node (axlStream   * stream,
 					/* 2: xml:space=default  (found)
 					 * make current node and all its childs to not
 					 * preserve white spaces (by default) */
+					axl_binary_stack_pop  (doc->xmlPreserve);
 					axl_binary_stack_push (doc->xmlPreserve, axl_false);
 				} else {
 					/* parse error */
@@ -1021,14 +1031,6 @@ axl_bool __axl_doc_parse_node (axlStream   * stream,
 					return axl_false;
 
 				} /* end if */
-			} else {
-				/* 3: xml:space (not found) 
-				 * make the current node to inherint
-				 * default from parent */
-				if (axl_binary_stack_is_empty (doc->xmlPreserve))
-					axl_binary_stack_push (doc->xmlPreserve, axl_false);
-				else
-					axl_binary_stack_push_the_same (doc->xmlPreserve);
 			} /* end if */
 
 			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "attribute installed..");
-- 
2.43.0


From 75f63f0d780676d5562308b2058d5dea8451b052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:26 +0000
Subject: [PATCH 03/76] fix: keep white spaces next to comments and PIs under
 xml:space=preserve, and leading white spaces found at a buffer boundary

---
 src/axl_doc.c | 119 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 76 insertions(+), 43 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index 66de495..6232c2e 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -1112,6 +1112,54 @@ axl_bool __axl_doc_parse_close_node (axlStream * stream, axlDoc * doc, axlNode *
 	return axl_false;
 }
 
+/** 
+ * @internal
+ *
+ * @brief Consumes the comment found at the current position (without
+ * consuming spaces around it), and stores it on the node provided (if
+ * defined).
+ *
+ * @return axl_true if the comment was read, otherwise axl_false is
+ * returned, releasing the stream and reporting the error.
+ */
+axl_bool __axl_doc_consume_comment (axlStream * stream, axlNode * parent, axlError ** error)
+{
+	char * content;
+	int    size;
+
+	/* consume comment header */
+	axl_stream_inspect (stream, "<!--", 4);
+
+	/* get comment content */
+	content = axl_stream_get_until_ref (stream, NULL, NULL, axl_true, &size, 1, "-->");
+	if (content == NULL) {
+		axl_error_new (-1, "detected an opened comment but not found the comment ending",
+			       stream, error);
+		axl_stream_free (stream);
+		return axl_false;
+	} 
+
+	/* store it */
+	if (parent != NULL)
+		axl_node_set_comment (parent, content, size);
+
+	return axl_true;
+}
+
+/** 
+ * @internal
+ *
+ * @brief Allows to check if the string provided is only made of white
+ * spaces.
+ */
+axl_bool __axl_doc_is_white_space (char * string)
+{
+	while (axl_stream_is_white_space (string))
+		string++;
+
+	return *string == 0;
+}
+
 /** 
  * @internal
  * 
@@ -1126,7 +1174,8 @@ axlDoc * __axl_doc_parse_common (const char * entity, int entity_size,
 	axlDoc    * doc           = NULL;
 	axlNode   * node          = NULL;
 	char      * string        = NULL;
-	int         index;
+	char      * chunk;
+	int         size;
 	axl_bool    is_empty      = axl_false;
 	
 	/* create the xml stream using provided data */
@@ -1166,22 +1215,22 @@ axlDoc * __axl_doc_parse_common (const char * entity, int entity_size,
 		/* while the stream have data */
 		while (axl_stream_remains (stream)) {
 
-			/* get current index */
-			index = axl_stream_get_index (stream);
-
-			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "current index: %d (global: %d)", index,
-				   axl_stream_get_global_index (stream));
-			
-			/* get rid from spaces according to the
-			 * xml:space configuration */
-			if (! axl_binary_stack_peek (doc->xmlPreserve)) {
-				AXL_CONSUME_SPACES(stream);
-			} /* end if */
-
-			/* consume a possible comment and process instructions */
+			/* consume a possible comment or process instruction */
 			if (axl_stream_peek (stream, "<?", 2) > 0 || axl_stream_peek (stream, "<!--", 4) > 0) {
-				if (! axl_doc_consume_comments (doc, stream, error))
-					return NULL;
+				if (axl_stream_peek (stream, "<!--", 4) > 0) {
+					if (! __axl_doc_consume_comment (stream, node, error))
+						return NULL;
+				} else {
+					if (! axl_doc_consume_pi (doc, node, stream, error))
+						return NULL;
+				} /* end if */
+
+				/* get rid from spaces that follow
+				 * according to the xml:space
+				 * configuration */
+				if (! axl_binary_stack_peek (doc->xmlPreserve)) {
+					AXL_CONSUME_SPACES(stream);
+				} /* end if */
 				
 				/* continue on the next index */
 				continue;
@@ -1263,16 +1312,8 @@ axlDoc * __axl_doc_parse_common (const char * entity, int entity_size,
 				continue;
 			}
 			
-			/* restore index position previous to the axl
-			 * space consuming */
-			if (axl_stream_get_index (stream) > index) {
-				axl_stream_move (stream, index);
-			}
-			
 			/* found node content */
-			axl_stream_set_buffer_alloc (stream, (axlStreamAlloc)__axl_doc_alloc, doc);
 			string = axl_stream_get_until (stream, NULL, NULL, axl_false, 1, "<");
-			axl_stream_set_buffer_alloc (stream, NULL, NULL);
 			
 			/* check for a null content found */
 			if (string == NULL) {
@@ -1281,13 +1322,16 @@ axlDoc * __axl_doc_parse_common (const char * entity, int entity_size,
 				return NULL;
 			}
 
-			/* nullify internal stream reference to have
-			 * the unique reference */
-			axl_stream_nullify (stream, LAST_CHUNK);
+			/* drop content only made of white spaces
+			 * according to the xml:space configuration */
+			if (! axl_binary_stack_peek (doc->xmlPreserve) && __axl_doc_is_white_space (string))
+				continue;
 
 			/* set current data */
-			/* axl_node_set_content_ref (node, string, -1); */
-			axl_node_set_content_from_factory (doc->content_factory, node, string, -1); 
+			size   = strlen (string);
+			chunk  = __axl_doc_alloc (size + 1, doc);
+			memcpy (chunk, string, size + 1);
+			axl_node_set_content_from_factory (doc->content_factory, node, chunk, size); 
 
 			/* keep on looping */
 		}
@@ -3331,8 +3375,6 @@ axl_bool      axl_doc_consume_comments         (axlDoc * doc, axlStream * stream
 {
 
 	axl_bool     found_item;
-	char       * content;
-	int          size;
 
 	/* get current parent node */
 	axlNode * parent = (doc != NULL) ? axl_stack_peek (doc->parentNode) : NULL;
@@ -3351,20 +3393,11 @@ axl_bool      axl_doc_consume_comments         (axlDoc * doc, axlStream * stream
 		AXL_CONSUME_SPACES(stream);
 
 		/* check for comments */
-		if (axl_stream_inspect (stream, "<!--", 4) > 0) {
+		if (axl_stream_peek (stream, "<!--", 4) > 0) {
 
-			/* get comment content */
-			content = axl_stream_get_until_ref (stream, NULL, NULL, axl_true, &size, 1, "-->");
-			if (content == NULL) {
-				axl_error_new (-1, "detected an opened comment but not found the comment ending",
-					       stream, error);
-				axl_stream_free (stream);
+			/* get the comment and store it */
+			if (! __axl_doc_consume_comment (stream, parent, error))
 				return axl_false;
-			} 
-
-			/* store it */
-			if (parent != NULL)
-				axl_node_set_comment (parent, content, size);
 			
 			/* flag that we have found a comment */
 			found_item = axl_true;
-- 
2.43.0


From 11271d4b59e8980d2b001a3f036ff1035bf1d4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:13 +0000
Subject: [PATCH 04/76] fix: report an empty chunk (not a failure) when the
 content read by reference is empty

---
 src/axl_stream.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/axl_stream.c b/src/axl_stream.c
index 854a34f..9d65030 100644
--- a/src/axl_stream.c
+++ b/src/axl_stream.c
@@ -1512,8 +1512,9 @@ char * __axl_stream_get_untilv_wide (axlStream * stream, va_list args)
 			stream->previous_inspect          = 0;
 			
 			
-			/* return allocated result */
-			if (! stream->result_size)
+			/* return allocated result (result_size could be
+			 * 0 because an empty reference was found) */
+			if (string == NULL)
 				return stream->last_chunk;
 
 			/* return reference result */
-- 
2.43.0


From 4bd41f07b97c8375914f9a7187baf1c05fc449fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:18 +0000
Subject: [PATCH 05/76] fix: content starting with '/>' is not the end of the
 tag already closed

---
 src/axl_doc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index 6232c2e..804fd80 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -890,7 +890,7 @@ axl_bool __axl_doc_parse_node (axlStream   * stream,
 		 * the value 0 or 1 was matched, this means that we
 		 * are on "/>" case */
 		if ((matched_chunk == 1) ||
-		    axl_stream_inspect (stream, "/>", 2) > 0) {
+		    (matched_chunk != 0 && axl_stream_inspect (stream, "/>", 2) > 0)) {
 			/* use alloc though string factory */
 			axl_stream_set_buffer_alloc (stream, NULL, NULL);
 
-- 
2.43.0


From f7e93180ab49dbc36c4eaa9871594999b1a88f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:23 +0000
Subject: [PATCH 06/76] fix: accept process instructions between the xml header
 and the document type declaration

---
 src/axl_doc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index 804fd80..129b16c 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -703,6 +703,9 @@ axl_bool __axl_doc_parse_xml_header (axlStream * stream, axlDoc * doc, axlError
 			return axl_false;
 		}
 
+		/* header read, process instructions are accepted from now on */
+		doc->headerProcess = axl_true;
+
 		/* consume a possible comment */
 		if (! axl_doc_consume_comments (doc, stream, error))
 			return axl_false;
-- 
2.43.0


From 4d1aa0f7ce4414da34b140ed814448861cef2094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:48 +0000
Subject: [PATCH 07/76] fix: a document has exactly one root node, started by
 '<' and only followed by comments, PIs and white spaces

---
 src/axl_doc.c | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index 129b16c..392d38e 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -785,21 +785,20 @@ axl_bool __axl_doc_parse_node (axlStream   * stream,
 	int       length;
 	axl_bool  delim;
 	
-	/* consume a possible comment */
-	if (! axl_doc_consume_comments (doc, stream, error))
-		return axl_false;
+	/* for the root node, consume a possible comment and check for
+	 * the initial < definition (for the rest of nodes it was
+	 * already consumed by the caller) */
+	if (doc->rootNode == NULL) {
+		if (! axl_doc_consume_comments (doc, stream, error))
+			return axl_false;
 
-	/* check for initial < definition */
-	if (! (axl_stream_inspect (stream, "<", 1) > 0)  && ! axl_stream_remains (stream)) {
-		/* check if we are reading the first node node */
-		if (doc->rootNode == NULL)
+		if (! (axl_stream_inspect (stream, "<", 1) > 0)) {
 			axl_error_new (-2, "expected initial < for a root node definition, not found. An xml document must have, at least, one node definition.", 
 				       stream, error);
-		else
-			axl_error_new (-2, "expected initial < for a node definition, not found.", stream, error);
-		axl_stream_free (stream);
-		return axl_false;
-	}
+			axl_stream_free (stream);
+			return axl_false;
+		} /* end if */
+	} /* end if */
 
 	/* get node name, keeping in mind the following:
 	 * chunk_matched
@@ -1354,6 +1353,18 @@ axlDoc * __axl_doc_parse_common (const char * entity, int entity_size,
 		return NULL;
 	}
 
+	/* only comments, process instructions and white spaces are
+	 * allowed after the root node */
+	if (! axl_doc_consume_comments (doc, stream, error))
+		return NULL;
+
+	/* (tolerate callers providing sizes that include the trailing \0) */
+	if (axl_stream_remains (stream) && ! axl_stream_inspect_code (stream, 0, 0)) {
+		axl_error_new (-1, "found content after the root node, an xml document only has one root node", stream, error);
+		axl_stream_free (stream);
+		return NULL;
+	} /* end if */
+
 	/* parse complete */
 	axl_stream_unlink (stream);
 	axl_stream_free (stream);
-- 
2.43.0


From b9390895f2e8787f80ec9f2f1cb2b2a344c26b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:08 +0000
Subject: [PATCH 08/76] fix: check node and attribute names for markup
 characters, accept white spaces around '='

---
 src/axl_doc.c | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index 392d38e..ee8eca6 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -733,6 +733,17 @@ axl_bool __axl_doc_parse_xml_header (axlStream * stream, axlDoc * doc, axlError
 	return axl_true;
 }
 
+/** 
+ * @internal
+ *
+ * @brief Allows to check that a node or attribute name doesn't
+ * include characters that are part of the xml markup.
+ */
+axl_bool __axl_doc_is_name (const char * name)
+{
+	return name[0] != 0 && name[strcspn (name, "<>&/='\" \t\r\n")] == 0;
+}
+
 /** 
  * @internal
  *
@@ -841,6 +852,16 @@ axl_bool __axl_doc_parse_node (axlStream   * stream,
 		} /* end if */
 	} /* end if */
 
+	/* check node name */
+	if (! __axl_doc_is_name (string_aux)) {
+		/* use alloc though string factory */
+		axl_stream_set_buffer_alloc (stream, NULL, NULL);
+
+		axl_error_new (-2, "found markup characters inside the node name", stream, error);
+		axl_stream_free (stream);
+		return axl_false;
+	} /* end if */
+
 	/* create the node and associate it the node name found */
 	node = axl_node_factory_get (doc->node_factory);
 	axl_node_set_name_from_factory (node, string_aux); 
@@ -955,13 +976,27 @@ axl_bool __axl_doc_parse_node (axlStream   * stream,
 			 * name */
 			axl_stream_nullify (stream, LAST_CHUNK);
 
+			/* remove optional white spaces found between
+			 * the attribute name and its = */
+			length = strlen (string_aux);
+			while (length > 0 && axl_stream_is_white_space (string_aux + length - 1)) {
+				length--;
+				string_aux[length] = 0;
+			} /* end while */
+
 			/* check for empty values at the attribute definition */
-			if (string_aux [0] == 0) {
-				axl_error_new (-5, "Expected to find an attribute name (but found an empty value)", stream, error);
+			if (! __axl_doc_is_name (string_aux)) {
+				/* use alloc though string factory */
+				axl_stream_set_buffer_alloc (stream, NULL, NULL);
+
+				axl_error_new (-5, "Expected to find an attribute name (but found an empty value or markup characters inside it)", stream, error);
 				axl_stream_free (stream);
 				return axl_false;
 			} /* end if */
 
+			/* get rid from spaces between = and the value */
+			AXL_CONSUME_SPACES (stream);
+
 			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "attribute found: [%s]", string_aux);
 
 			/* remove next " and ' if defined */
-- 
2.43.0


From c4c127487281be558affa4ee4eb87775fef193c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:26 +0000
Subject: [PATCH 09/76] fix: accept PIs and comments before the document type
 declaration or the root node when there is no xml header

---
 src/axl_doc.c | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index ee8eca6..f71eaf7 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -615,17 +615,10 @@ axl_bool __axl_doc_parse_xml_header (axlStream * stream, axlDoc * doc, axlError
 	}
 
 	/* check for initial XMLDec (production 23) */
-	if (axl_stream_inspect (stream, "<?", 2)) {
+	if (axl_stream_inspect_several (stream, 4, "<?xml ", 6, "<?xml\n", 6, "<?xml\t", 6, "<?xml\r", 6) > 0) {
 		
 		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "found xml declaration");
 
-		/* check initial <?xml xml header */
-		if (! (axl_stream_inspect (stream, "xml", 3) > 0)) {
-			axl_error_new (-2, "expected initial <?xml declaration, not found.", stream, error);
-			axl_stream_free (stream);
-			return axl_false;
-		}
-		
 		/* consume spaces */
 		AXL_CONSUME_SPACES (stream);
 
@@ -703,14 +696,16 @@ axl_bool __axl_doc_parse_xml_header (axlStream * stream, axlDoc * doc, axlError
 			return axl_false;
 		}
 
-		/* header read, process instructions are accepted from now on */
-		doc->headerProcess = axl_true;
-
-		/* consume a possible comment */
-		if (! axl_doc_consume_comments (doc, stream, error))
-			return axl_false;
 	}
 
+	/* header read (or not present), process instructions are
+	 * accepted from now on */
+	doc->headerProcess = axl_true;
+
+	/* consume a possible comment */
+	if (! axl_doc_consume_comments (doc, stream, error))
+		return axl_false;
+
 	/* configure encoding again, now we could have more data */
 	if (! axl_doc_configure_encoding (doc, stream, error)) {
 		axl_stream_free (stream);
-- 
2.43.0


From 934264f760006977f01e6cd1d2285b7bd42ef6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:50 +0000
Subject: [PATCH 10/76] fix: configure the document encoding before reading
 comments and PIs that follow the xml header

---
 src/axl_doc.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index f71eaf7..d84c4a7 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -702,16 +702,16 @@ axl_bool __axl_doc_parse_xml_header (axlStream * stream, axlDoc * doc, axlError
 	 * accepted from now on */
 	doc->headerProcess = axl_true;
 
-	/* consume a possible comment */
-	if (! axl_doc_consume_comments (doc, stream, error))
-		return axl_false;
-
 	/* configure encoding again, now we could have more data */
 	if (! axl_doc_configure_encoding (doc, stream, error)) {
 		axl_stream_free (stream);
 		return axl_false;
 	}
 
+	/* consume a possible comment */
+	if (! axl_doc_consume_comments (doc, stream, error))
+		return axl_false;
+
 	/* now process the document type declaration */
 	if (axl_stream_inspect (stream, "<!DOCTYPE", 9) > 0) {
 		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "found doc type declaration..");
-- 
2.43.0


From e813c17af96eaa1580a065348964b55ec59ad216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:38 +0000
Subject: [PATCH 11/76] fix: reject markup declarations found where a node is
 expected

---
 src/axl_doc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index d84c4a7..164005a 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -736,7 +736,7 @@ axl_bool __axl_doc_parse_xml_header (axlStream * stream, axlDoc * doc, axlError
  */
 axl_bool __axl_doc_is_name (const char * name)
 {
-	return name[0] != 0 && name[strcspn (name, "<>&/='\" \t\r\n")] == 0;
+	return name[0] != 0 && name[0] != '!' && name[0] != '?' && name[strcspn (name, "<>&/='\" \t\r\n")] == 0;
 }
 
 /** 
-- 
2.43.0


From 96103dcaeda679e75084c2832b9d15180d4bf3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:42 +0000
Subject: [PATCH 12/76] fix: reject attribute values not terminated

---
 src/axl_doc.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index 164005a..ee11336 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -1019,6 +1019,16 @@ axl_bool __axl_doc_parse_node (axlStream   * stream,
 			else
 				string_aux2 = axl_stream_get_until (stream, NULL, NULL, axl_true, 1, "'");
 
+			/* check attribute value is terminated */
+			if (string_aux2 == NULL) {
+				/* use alloc though string factory */
+				axl_stream_set_buffer_alloc (stream, NULL, NULL);
+
+				axl_error_new (-2, "Expected to find the attribute value terminator, but it wasn't found", stream, error);
+				axl_stream_free (stream);
+				return axl_false;
+			} /* end if */
+
 			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "value found: [%s]", string_aux2);
 			
 			/* nullify internal reference so we have the
-- 
2.43.0


From e118271e0a616113815ec79df3cc8338069ec3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:47 +0000
Subject: [PATCH 13/76] fix: do not read beyond a standalone value shorter than
 3 bytes

---
 src/axl_doc.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index ee11336..b81fce6 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -680,10 +680,7 @@ axl_bool __axl_doc_parse_xml_header (axlStream * stream, axlDoc * doc, axlError
 			}
 
 			/* set standalone configuration */
-			if (memcmp ("yes", string_aux, 3))
-				doc->standalone = axl_false;
-			else
-				doc->standalone = axl_true;
+			doc->standalone = axl_cmp ("yes", string_aux);
 		}
 		
 		/* check for an space */
-- 
2.43.0


From 9757e73f18eff6aca8c887b53e5032af4cab6cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:16 +0000
Subject: [PATCH 14/76] fix: release the DTD element when its declaration
 fails, and detect declarations cut at the end of the data

---
 src/axl_dtd.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index 99ed59e..e431ac4 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -877,7 +877,7 @@ axl_bool     __axl_dtd_read_element_spec (axlStream * stream, axlDtdElement * dt
 	AXL_CONSUME_SPACES (stream);
 
 	/* check that the content specification have an ( */
-	if (! (axl_stream_inspect (stream, "(", 1))) {
+	if (! (axl_stream_inspect (stream, "(", 1) > 0)) {
 		axl_error_new (-1, "Expected to find a element content specification opener \"(\", but it wasn't found",
 			       stream, error);
 		axl_stack_free (dtd_item_stack);
@@ -1231,19 +1231,25 @@ axl_bool     __axl_dtd_parse_element (axlDtd * dtd, axlStream * stream, axlError
 		 * which leads to the two possible values: Mixed and
 		 * PcData */
 		element->type = ELEMENT_TYPE_CHILDREN;
-		if (!__axl_dtd_read_element_spec (stream, element, error))
+		if (!__axl_dtd_read_element_spec (stream, element, error)) {
+			/* element not added to the DTD, release it */
+			axl_dtd_element_free (element);
 			return axl_false;
+		}
 	}
 
 	/* add element found */
-	if (! __axl_dtd_add_element (dtd, element, stream, error))
+	if (! __axl_dtd_add_element (dtd, element, stream, error)) {
+		/* element not added to the DTD, release it */
+		axl_dtd_element_free (element);
 		return axl_false;
+	}
 	
 	/* consume previous white spaces */
 	AXL_CONSUME_SPACES (stream);
 
 	/* check for the last DTD declaration */
-	if (! (axl_stream_inspect (stream, ">", 1))) {
+	if (! (axl_stream_inspect (stream, ">", 1) > 0)) {
 		axl_error_new (-1, "Unable to find last, > terminator for the DTD <!ELEMENT declaration", stream, error);
 		axl_stream_free (stream);
 		return axl_false;
-- 
2.43.0


From f20b4556f9f2ef9b84b6c5be0a8a451fd01329e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:27 +0000
Subject: [PATCH 15/76] fix: do not loop forever looking for the root of a DTD
 with recursive declarations

---
 src/axl_dtd.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index e431ac4..85f2656 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -474,6 +474,7 @@ axl_bool     __axl_dtd_get_is_parent (axlDtdElement * dtd_element_parent,
 axlDtdElement * __axl_dtd_get_new_root (axlDtd * dtd) 
 {
 	int             iterator;
+	int             steps;
 	axl_bool        change_detected;
 
 	axlDtdElement * dtd_element_aux;
@@ -481,6 +482,11 @@ axlDtdElement * __axl_dtd_get_new_root (axlDtd * dtd)
 
 	/* set the very first root node */
 	dtd_element_the_root_is_on_fire = axl_list_get_nth (dtd->elements, 0);
+
+	/* every pass moves, at least, one level up: do not perform
+	 * more passes than elements, which is only possible with
+	 * recursive declarations */
+	steps = axl_list_length (dtd->elements);
 	
 	do {
 		/* check which is the top */
@@ -492,7 +498,8 @@ axlDtdElement * __axl_dtd_get_new_root (axlDtd * dtd)
 			dtd_element_aux = axl_list_get_nth (dtd->elements, iterator);
 			
 			/* check which is the top */
-			if (__axl_dtd_get_is_parent (dtd_element_aux,
+			if (dtd_element_aux != dtd_element_the_root_is_on_fire &&
+			    __axl_dtd_get_is_parent (dtd_element_aux,
 						     dtd_element_the_root_is_on_fire)) {
 				/* it seems that the new element is the root
 				 * one, update the reference */
@@ -503,7 +510,8 @@ axlDtdElement * __axl_dtd_get_new_root (axlDtd * dtd)
 			/* update inner loop iterator */
 			iterator ++;
 		} /* while end */
-	}while (change_detected);
+		steps--;
+	}while (change_detected && steps > 0);
 
 	/* return the root found */
 	return dtd_element_the_root_is_on_fire;
-- 
2.43.0


From f02751d0f8beb28ce3b2f2cce94585b0cb48217b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:33 +0000
Subject: [PATCH 16/76] fix: terminate the validation of ANY elements and
 report an error if the root is not the EMPTY element declared

---
 src/axl_dtd.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index 85f2656..f21607a 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -3040,6 +3040,7 @@ axl_bool           axl_dtd_validate        (axlDoc * doc, axlDtd * dtd,
 	axlList            * idref_validation = NULL;
 	
 	axlDtdElement      * element;
+	axlDtdElement      * root;
 	axl_bool             top_level;
 	char               * err_msg;
 	axl_bool             result;
@@ -3057,12 +3058,13 @@ axl_bool           axl_dtd_validate        (axlDoc * doc, axlDtd * dtd,
 
 		/* because a DTD document could have several top level
 		 * elements, ensure this is not the case */
+		root    = element;
 		element = axl_dtd_get_element (dtd, axl_node_get_name (parent));
 		if (element == NULL) { /*  || ! axl_dtd_element_is_toplevel (dtd, element)) { */
 			/* root node doesn't match */
 			err_msg = axl_strdup_printf ("Found that root node doesn't match (%s != %s!",
 						     axl_node_get_name (parent), 
-						     axl_dtd_get_element_name (element));
+						     axl_dtd_get_element_name (root));
 			axl_error_new (-1, err_msg, NULL, error);
 			axl_free (err_msg);
 			return axl_false;
@@ -3094,7 +3096,7 @@ axl_bool           axl_dtd_validate        (axlDoc * doc, axlDtd * dtd,
 	/* check empty content spec */
 	if (axl_dtd_get_element_type (element) == ELEMENT_TYPE_EMPTY) {
 		/* check if the document provided have only one node */
-		result = axl_node_is_empty (parent) && !axl_node_have_childs (parent) && axl_dtd_attr_validate (parent, dtd, error, id_validation, idref_validation);
+		result = __axl_dtd_validate_element_type_empty (element, parent, NULL, error) && axl_dtd_attr_validate (parent, dtd, error, id_validation, idref_validation);
 
 		/* check references */
 		if (result)
@@ -3201,6 +3203,7 @@ axl_bool           axl_dtd_validate        (axlDoc * doc, axlDtd * dtd,
 			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "  find  ANY dtd element");
 			/* the anything is allowed cased from this
 			 * parent node. */
+			parent = NULL;
 			goto continue_with_validation;
 		case ELEMENT_TYPE_MIXED:
 			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "  find  MIXED dtd element");
-- 
2.43.0


From c9f09e84972ed381012465274de95c2fc69c9cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:45 +0000
Subject: [PATCH 17/76] fix: set the content model type from the separators
 found after nested groups, and detect mixed content with #PCDATA at any place

---
 src/axl_dtd.c | 83 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 56 insertions(+), 27 deletions(-)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index f21607a..5ea97a9 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -788,6 +788,40 @@ axl_bool     __axl_dtd_element_spec_update_chunk_matched_for_cp_separator (axlSt
 	return axl_false;
 }
 
+/** 
+ * @internal
+ *
+ * Support function which configures the item list type according to
+ * the separator found (1: ',' and 2: '|'), checking that separators
+ * are not mixed inside the same list.
+ */
+axl_bool     __axl_dtd_element_spec_set_type (axlDtdElementList  * dtd_item_list,
+					      int                  chunk_matched,
+					      axlStream          * stream,
+					      axlError          ** error)
+{
+	switch (chunk_matched) {
+	case 1:
+		if (dtd_item_list->type == CHOICE) {
+			axl_error_new (-1, "Detected that the DTD definition is mixing content particules separators at the same level ('|' and ','). First detected a choice spec (|) but then detected a sequence element (,)",
+				       stream, error);
+			return axl_false;
+		}
+		dtd_item_list->type = SEQUENCE;
+		break;
+	case 2:
+		if (dtd_item_list->type == SEQUENCE) {
+			axl_error_new (-1, "Detected that the DTD definition is mixing content particules separators at the same level ('|' and ','). First detected a sequence spec (,) but then detected a choice element (|)",
+				       stream, error);
+			return axl_false;
+		}
+		dtd_item_list->type = CHOICE;
+		break;
+	}
+
+	return axl_true;
+}
+
 /** 
  * @internal
  *
@@ -807,7 +841,7 @@ char * __axl_dtd_read_content_particule (axlStream  * stream,
 					   " ", ",", "|", ")",
 					   /* repetition configuration: 4, 5, 6 */
 					   "+", "*", "?",
-					   /* new dtd item list being opened: 8 */
+					   /* new dtd item list being opened: 7 */
 					   "(");
 	if (string_aux == NULL) {
 		axl_error_new (-1, "Expected to find a element content specification particule, but it wasn't found",
@@ -819,7 +853,7 @@ char * __axl_dtd_read_content_particule (axlStream  * stream,
 	
 	/* check the user doesn't nest item list in a not
 	 * proper way */
-	if (*chunk_matched == 8) {
+	if (*chunk_matched == 7) {
 		axl_error_new (-1, "Found a not proper nesting item list for a DTD element, before using ( a separator must be used (CHOICE: |, SEQUENCE: ,)",
 			       stream, error);
 		axl_stack_free (dtd_item_stack);
@@ -854,7 +888,7 @@ char * __axl_dtd_read_content_particule (axlStream  * stream,
 axl_bool     __axl_dtd_read_element_spec (axlStream * stream, axlDtdElement * dtd_element, axlError ** error)
 {
 	char              * string_aux;
-	axl_bool            is_pcdata;
+	axl_bool            is_pcdata     = axl_false;
 	int                 chunk_matched = -1;
 	axlStack          * dtd_item_stack;
 	axlDtdElementList * dtd_item_list;
@@ -926,14 +960,15 @@ axl_bool     __axl_dtd_read_element_spec (axlStream * stream, axlDtdElement * dt
 		 * repetition configuration: 
 		 * 4, 5, 6  -> "+", "*", "?",
 		 * new dtd item list being opened: 
-		 * 8 -> "(" */
+		 * 7 -> "(" */
 		string_aux = __axl_dtd_read_content_particule (stream, &chunk_matched, dtd_item_stack, error);
 		if (string_aux == NULL)
 			return axl_false;
 		
 		/* check, and record, that the string read is
 		 * PCDATA */
-		is_pcdata = axl_cmp (string_aux, "#PCDATA");
+		if (axl_cmp (string_aux, "#PCDATA"))
+			is_pcdata = axl_true;
 
 		/* add the item read if have something defined */
 
@@ -986,27 +1021,10 @@ axl_bool     __axl_dtd_read_element_spec (axlStream * stream, axlDtdElement * dt
 
 		/* set current sequence type accoring to separators
 		 * used */
-		switch (chunk_matched) {
-		case 1:
-			if (dtd_item_list->type == CHOICE) {
-				axl_error_new (-1, "Detected that the DTD definition is mixing content particules separators at the same level ('|' and ','). First detected a sequence spec (,) but then detected a choice element (|)",
-					       stream, error);
-				axl_stack_free (dtd_item_stack);
-				axl_stream_free (stream);		
-				return axl_false;
-			}
-			dtd_item_list->type = SEQUENCE;
-			break;
-		case 2:
-			if (dtd_item_list->type == SEQUENCE) {
-				axl_error_new (-1, "Detected that the DTD definition is mixing content particules separators at the same level ('|' and ','). First detected a choice spec (|) but then detected a sequence element (,)",
-					       stream, error);
-				axl_stack_free (dtd_item_stack);
-				axl_stream_free (stream);		
-				return axl_false;
-			}
-			dtd_item_list->type = CHOICE;
-			break;
+		if (! __axl_dtd_element_spec_set_type (dtd_item_list, chunk_matched, stream, error)) {
+			axl_stack_free (dtd_item_stack);
+			axl_stream_free (stream);
+			return axl_false;
 		}
 
 		/* set element type if a element list terminator was
@@ -1027,6 +1045,10 @@ axl_bool     __axl_dtd_read_element_spec (axlStream * stream, axlDtdElement * dt
 				AXL_CONSUME_SPACES (stream);
 				dtd_item_list->times = __axl_dtd_get_repetition_conf (stream);
 
+				/* list without separators: set default type */
+				if (dtd_item_list->type == STILL_UNDEF)
+					dtd_item_list->type = SEQUENCE;
+
 				/* consume previous white spaces */
 				AXL_CONSUME_SPACES (stream);
 
@@ -1047,6 +1069,13 @@ axl_bool     __axl_dtd_read_element_spec (axlStream * stream, axlDtdElement * dt
 					dtd_item_list = axl_stack_pop (dtd_item_stack);
 					__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "getting the next item list in the stack, stack status: %d",
 						   axl_stack_size (dtd_item_stack));
+
+					/* the separator found belongs to the list that holds the one terminated */
+					if (! __axl_dtd_element_spec_set_type (dtd_item_list, chunk_matched, stream, error)) {
+						axl_stack_free (dtd_item_stack);
+						axl_stream_free (stream);
+						return axl_false;
+					}
 				}
 
 				/* special case: check if the next element to
@@ -1054,7 +1083,7 @@ axl_bool     __axl_dtd_read_element_spec (axlStream * stream, axlDtdElement * dt
 				/* consume previous white spaces */
 				AXL_CONSUME_SPACES (stream);
 
-			}while ((axl_stream_inspect (stream, ")", 1) > 0) && !is_empty);
+			}while (!is_empty && (axl_stream_inspect (stream, ")", 1) > 0));
 
 			/* drop a log */
 			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "terminator sequence status: chunk matched=%d ans stack status: %d",
-- 
2.43.0


From c458423ffcafe53d54cb0a8a0caab8aa2f1378b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:00 +0000
Subject: [PATCH 18/76] fix: validate content models completely: optional and
 nested groups, repetitions, and mixed content

---
 src/axl_dtd.c | 500 ++++++++++++--------------------------------------
 src/axl_dtd.h |   2 +-
 2 files changed, 117 insertions(+), 385 deletions(-)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index 5ea97a9..435b444 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -2076,8 +2076,7 @@ axl_bool     __axl_dtd_validate_sequence (axlNode            * parent,
 					  int                * child_position,
 					  axlDtdElementList  * itemList, 
 					  axlError          ** error,
-					  axl_bool             try_match,
-					  axl_bool             top_level)
+					  axl_bool             try_match)
 {
 	int                      iterator        = 0;
 	int                      child_pos       = *child_position;
@@ -2118,88 +2117,16 @@ axl_bool     __axl_dtd_validate_sequence (axlNode            * parent,
 			} else
 				node     = NULL;
 
-			/* the node child list have ended, check if
-			 * this situation was expected */
-			if (node == NULL) {
-				__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "no more child nodes to validate at %d, for parent: %s, times: %d, iterator: %d, item count: %d",
-					   child_pos, axl_node_get_name (parent), times,
-					   iterator, axl_dtd_item_list_count (itemList));
-				/* check if we were working with a
-				 * list, which have matched at least
-				 * one item */
-				if (times == ONE_OR_MANY && one_matched && status) {
-					if ((iterator + 1) == axl_dtd_item_list_count (itemList)) {
-						*child_position = child_pos;
-						__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "sequence validated with child position (III): %d", child_pos);
-						return axl_true;
-					} 
-
-					/* reached this point we have
-					   matched a one to many with
-					   at least one match */
-					break;
-				}
-				
-				/* check that the rest of the
-				 * specification item is optional,
-				 * including the one used */
-				status = axl_true;
-				do {
-					if (times != ZERO_OR_MANY &&
-					    times != ZERO_OR_ONE) {
-
-						__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "found item, inside the DTD item list, that is not optional: %d (repeat value: %d)", 
-							   iterator, times);
-						status = axl_false;
-						break;
-					}
-
-					/* update index and get the next item */
-					iterator++;
-					if (iterator < axl_dtd_item_list_count (itemList))
-						itemNode = axl_dtd_item_list_get_node (itemList, iterator);
-				}while (status && (iterator < axl_dtd_item_list_count (itemList)));
-
-				/* check status before checking the rest of the item spec */
-				if (status) {
-					*child_position = child_pos;
-
-					__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "sequence validated with child position (II): %d", child_pos);
-
-					return axl_true;
-				}
-				
-				/* check if a try match is being runned */
-				if (! try_match) {
-					axl_error_report (error, -1 , 
-						       "Found that DTD specifies more nodes to be hold by the parent (<%s>), but no more childs were found",
-						       axl_node_get_name (parent));
-				}
-
-				__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "found that no nodes left to satisfy DTD validation operation");
-				*child_position = child_pos;
-				return axl_false;
-			}
-
 			/* check node type */
 			if (axl_dtd_item_node_get_type (itemNode) == AXL_ELEMENT_LIST) {
 
-				__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "the item node is an item list, dtd item list position: %d, child position: %d=<%s>",
-					 iterator, child_pos, axl_node_get_name (node));
+				__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "the item node is an item list, dtd item list position: %d, child position: %d",
+					 iterator, child_pos);
 
 				/* element list found, validate its content */
 				if (! __axl_dtd_validate_item_list (axl_dtd_item_node_get_list (itemNode),
-								    parent, &child_pos, error, axl_false)) {
+								    parent, &child_pos, error, try_match)) {
 					__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "sub item list validation have failed (not critical)");
-					/* check if we are the top
-					 * level list and the itemNode
-					 * checked is the last one
-					 * item on the item list */
-					if (top_level && ((iterator + 1) == axl_node_get_child_num (parent))) {
-						__axl_log (LOG_DOMAIN, AXL_LEVEL_CRITICAL, "found that the last item list wasn't matched");
-						
-					}
-
 					*child_position = child_pos;
 					return axl_false;
 				}
@@ -2220,7 +2147,7 @@ axl_bool     __axl_dtd_validate_sequence (axlNode            * parent,
 					   "the item node is a final content particule definition: %s",
 					   axl_dtd_item_node_get_value (itemNode));
 
-				status = NODE_CMP_NAME (node, axl_dtd_item_node_get_value (itemNode));
+				status = (node != NULL) && NODE_CMP_NAME (node, axl_dtd_item_node_get_value (itemNode));
 			}
 
 			/* check previous status */
@@ -2230,7 +2157,11 @@ axl_bool     __axl_dtd_validate_sequence (axlNode            * parent,
 					/* only report an upper level
 					 * error if we are not running
 					 * a try match */
-					if (! try_match) {
+					if (! try_match && node == NULL) {
+						axl_error_report (error, -1 , 
+							       "Found that DTD specifies more nodes to be hold by the parent (<%s>), but no more childs were found",
+							       axl_node_get_name (parent));
+					} else if (! try_match) {
 
 						__axl_log (LOG_DOMAIN, AXL_LEVEL_CRITICAL, 
 							   "Found different node (<%s>) for a sequence expected (<%s>), at child position: %d, item list pos: %d",
@@ -2310,28 +2241,6 @@ axl_bool     __axl_dtd_validate_sequence (axlNode            * parent,
 		iterator++;
 	}
 
-	/* check if more nodes where specified than the DTD spec */
-	times = axl_dtd_item_list_repeat (itemList);
-	if ((times == ONE_OR_MANY || times == ONE_AND_ONLY_ONE) && 
-	    top_level && (child_pos  < axl_node_get_child_num (parent))) {
-
-		/* drop a log */
-		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "parent node <%s> have more childs=%d than the childs iterated=%d, top_level=%d",
-			   axl_node_get_name (parent),
-			   axl_node_get_child_num (parent),
-			   child_pos, top_level);
-
-		/* do not report an error found if a try match is
-		 * being run */
-		if (! try_match) {
-			axl_error_new (-1, "More childs, than the ones especified in the DTD, were found",
-				       NULL, error);
-		}
-		/* return that the match wasn't possible */
-		*child_position = child_pos;
-		return axl_false;
-	}
-
 	/* return that the sequence has been validated */
 	*child_position = child_pos;
 
@@ -2349,100 +2258,66 @@ axl_bool     __axl_dtd_validate_choice (axlNode             * parent,
 					int                 * child_position, 
 					axlDtdElementList   * itemList, 
 					axlError           ** error,
-					axl_bool              try_match, 
-					axl_bool              top_level)
+					axl_bool              try_match)
 {
 	axlNode               * node;
 	axlDtdElementListNode * itemNode;
 	int                     iterator;
-	axl_bool                status;
+	int                     child_pos;
 	AxlDtdTimes             times;
-	axl_bool                one_match;
-
-	
-	if (*child_position < axl_node_get_child_num (parent)) {
-		/* get a reference to be matched by the choice list */
-		node = axl_node_get_child_nth (parent, *child_position);
-		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "validated choice list at position: %d=<%s>", *child_position, axl_node_get_name (node));
-	} else {
-		/* tried to match a choice list with a child index
-		 * outside the maximum number of childs */
-		if (! try_match) {
-			axl_error_new (-1, "Unable to match choice list, it seems that the are not enough childs to validate the choice list",
-				       NULL, error);
-		}
-		return axl_false;
-	}
+	axl_bool                optional = axl_false;
 
 	iterator = 0; 
 	while (iterator < axl_dtd_item_list_count (itemList)) {
 		/* get the DTD item list to match */
-		itemNode = axl_dtd_item_list_get_node   (itemList, iterator);
-		times    = axl_dtd_item_node_get_repeat (itemNode);
+		itemNode  = axl_dtd_item_list_get_node   (itemList, iterator);
+		times     = axl_dtd_item_node_get_repeat (itemNode);
+		child_pos = *child_position;
 
 		if (axl_dtd_item_node_get_type (itemNode) == AXL_ELEMENT_NODE) {
-			/* reset match configuration */
-			one_match = axl_false;
-		repeat_for_node:
-			/* a node was found */
-			status    = NODE_CMP_NAME (node, axl_dtd_item_node_get_value (itemNode));
-
-			/* know, if the node was matched check it
-			 * repetition configuration */
-			if (status) {
+			/* an item that could appear zero times makes
+			 * the choice to be also satisfied with nothing */
+			if (times == ZERO_OR_ONE || times == ZERO_OR_MANY)
+				optional = axl_true;
+
+			/* match as many nodes as the repetition
+			 * configuration allows */
+			while (*child_position < axl_node_get_child_num (parent)) {
+				node = axl_node_get_child_nth (parent, *child_position);
+				if (! NODE_CMP_NAME (node, axl_dtd_item_node_get_value (itemNode)))
+					break;
+
 				/* update child position */
 				(*child_position)++;
 
-				if (times == ONE_AND_ONLY_ONE || times == ZERO_OR_ONE) {
-					/* the node was matched and
-					 * the itemNode has a one and
-					 * only one configuration,
-					 * just return that the choice
-					 * list was matched */
-					return axl_true;
-				}
-				if (times == ONE_OR_MANY || times == ZERO_OR_MANY) {
-					/* because the node was matched, but the repetition
-					 * pattern allows to match more nodes we have to
-					 * iterate a bit more */
-					node = axl_node_get_child_nth (parent, *child_position);
-					if (node == NULL) {
-						/* because we already matched at least one item, 
-						 * we can assume that the itemNode was successfully 
-						 * matched for both cases (*) and (+). */
-						return axl_true;
-					}
-					/* flag the one match */
-					one_match = axl_true;
-					
-					/* if the node reference is
-					 * not NULL, try to match the
-					 * next item */
-					goto repeat_for_node;
-				}
-			} /* end if */
-			
-			/* before returning, that that we have matched
-			 * previously, at least, one node for
-			 * one-to-many and zero-to-many pattern */
-			if ((times == ONE_OR_MANY || times == ZERO_OR_MANY) && one_match) {
-				return axl_true;
-			}
+				if (times == ONE_AND_ONLY_ONE || times == ZERO_OR_ONE)
+					break;
+			} /* end while */
 
 		} else if (axl_dtd_item_node_get_type (itemNode) == AXL_ELEMENT_LIST) {
 			/* an element list was found, call to validate it */
-			/* element list found, validate its content */
 			if (__axl_dtd_validate_item_list (axl_dtd_item_node_get_list (itemNode),
-							  parent, child_position, error, axl_false)) {
-				/* item list matched */
-				return axl_true;
+							  parent, child_position, error, axl_true)) {
+				/* item list matched, maybe with nothing */
+				optional = axl_true;
+			} else if (child_pos != *child_position) {
+				/* the item list started to match and then failed */
+				break;
 			}
 		}
 
+		/* something was matched: the choice is satisfied */
+		if (child_pos != *child_position)
+			return axl_true;
+
 		/* no item was matched, update iterator indexes */
 		iterator++;
 	}
 
+	/* check if the choice could be satisfied with nothing */
+	if (optional && iterator == axl_dtd_item_list_count (itemList))
+		return axl_true;
+
 	/* seems that the choice list wasn't matched */
 	if (! try_match) {
 		axl_error_new (-1, "Unable to match choice list, after checking all posibilities, choice list wasn't validated", 
@@ -2477,208 +2352,49 @@ axl_bool     __axl_dtd_validate_item_list (axlDtdElementList  * itemList,
 					   axlNode            * parent, 
 					   int                * child_position,
 					   axlError          ** error,
-					   axl_bool             top_level)
+					   axl_bool             try_match)
 {
 	int          temp_child_pos;
 	axl_bool     status;
-	axl_bool     already_matched;
+	axl_bool     optional;
+	AxlDtdTimes  times = axl_dtd_item_list_repeat (itemList);
 
 
-	__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "validating an item list with repeat pattern: %d, at %d, top level=%d",
-		   axl_dtd_item_list_repeat (itemList), *child_position, top_level);
+	__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "validating an item list with repeat pattern: %d, at %d",
+		   times, *child_position);
 
-	/* now check repetition type */
-	switch (axl_dtd_item_list_repeat (itemList)) {
-	case ONE_AND_ONLY_ONE:
-		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "found a (one and only one) spec..");
-		if (axl_dtd_item_list_type (itemList) == SEQUENCE) {
-
-			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "using a SEQUENCE form");
-			/* it is a choice, so the item list specifies
-			 * the nodes that could appear */
-			if (!__axl_dtd_validate_sequence (parent, child_position, itemList, error, 
-							  axl_false, top_level)) {
-				return axl_false;
-			}
-		}else {
-			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "using a CHOICE form");
-			/* it is a sequence, so, item list
-			 * specification represents the nodes, in the
-			 * order they must appear */
-			if (!__axl_dtd_validate_choice (parent, child_position, itemList, error,
-							axl_false, top_level)) {
-				return axl_false;
-			}
-			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "choice list was properly validated");
-		}
-		break;
-	case ZERO_OR_ONE:
-
-		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "found a (zero or one) spec..");
-		if (axl_dtd_item_list_type (itemList) == SEQUENCE) {
-
-			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "using a SEQUENCE form, parent: <%s>",
-				   axl_node_get_name (parent));
-			/* because we are running a zero or one item
-			 * list matching, we don't care if it doesn't
-			 * match. In the case it match, the child
-			 * position is updated and next calls will be
-			 * properly aligned. In the match doesn't
-			 * happens, it also don't matter because the
-			 * pattern allow to not match */
-			temp_child_pos = *child_position;
-			if (!__axl_dtd_validate_sequence (parent, child_position, itemList, error, 
-							  axl_true, top_level)) {
-				/* check that the match wasn't
-				 * produced, at any level */
-				if (temp_child_pos != *child_position) {
-					__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "item list mismatch (%d != %d)", 
-						   temp_child_pos, *child_position);
-					axl_error_new (-1, "Found an DTD item list definition, that should be matched entirely or not, zero or one time, but it was matched partially",
+	/* the first match is not required by (?) and (*) patterns */
+	optional = (times == ZERO_OR_ONE || times == ZERO_OR_MANY);
+	do {
+		/* one match, all of them with the exception of the
+		 * first one (if required) allowed to fail */
+		temp_child_pos = *child_position;
+		if (axl_dtd_item_list_type (itemList) == SEQUENCE)
+			status = __axl_dtd_validate_sequence (parent, child_position, itemList, error, try_match || optional);
+		else
+			status = __axl_dtd_validate_choice (parent, child_position, itemList, error, try_match || optional);
+
+		if (! status) {
+			/* check that the match wasn't produced, at
+			 * any level */
+			if (optional && temp_child_pos != *child_position) {
+				__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "item list mismatch (%d != %d)", 
+					   temp_child_pos, *child_position);
+				if (! try_match)
+					axl_error_new (-1, "Found an DTD item list definition, that should be matched entirely or not, but it was matched partially",
 						       NULL, error);
-					return axl_false;
-				}
-
 				return axl_false;
-			}
-			
-		}else {
-			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "    using a CHOICE form");
-
-			/* it is a sequence, so, item list
-			 * specification represents the nodes, in the
-			 * order they must appear */
-			__axl_dtd_validate_choice (parent, child_position, itemList, error,
-						   axl_true, top_level);
-		}
-		break;
-	case ZERO_OR_MANY:
-
-		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "found a (zero or many) spec..");
-		if (axl_dtd_item_list_type (itemList) == SEQUENCE) {
-
-			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "    using a SEQUENCE (size: %d) form ",
-				   axl_dtd_item_list_count (itemList));
-			/* one this case, several matches must be
-			 * tried, until the validation fails */
-			do {
-				temp_child_pos = *child_position;
-				status         = __axl_dtd_validate_sequence (parent, child_position, itemList, error, 
-									      axl_true, top_level);
-
-				__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "sequence match status=%d", status);
-				if (! status) {
-					/* check that the match wasn't
-					 * produced, at any level */
-					if ((temp_child_pos != *child_position)) {
-
-						__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "item list mismatch (%d != %d)", 
-							   temp_child_pos, *child_position);
-						axl_error_new (-1, "Found an DTD item list definition, that should be matched entirely or not, zero or many times, but it was matched partially",
-							       NULL, error);
-						return axl_false;
-					}
-				}
-			}while (status);
-		}else {
-
-			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "    using a CHOICE form");
-			/* it is a sequence, so, item list
-			 * specification represents the nodes, in the
-			 * order they must appear */
-			do {
-				status = __axl_dtd_validate_choice (parent, child_position, itemList, error,
-								    axl_true, top_level);
-			}while (status);
-		}
-		break;
-	case ONE_OR_MANY:
-		/* one or many sequence spec (+) */
-		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "found a (zero or many) spec..");
-		if (axl_dtd_item_list_type (itemList) == SEQUENCE) {
-
-			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "    using a SEQUENCE (size: %d) form ",
-				   axl_dtd_item_list_count (itemList));
-
-			/* one this case, several matches must be
-			 * tried, until the validation fails */
-			already_matched = axl_false;
-			do {
-				temp_child_pos = *child_position;
-				/* try to match the one or many
-				   sequence according to the value
-				   stored inside already matched */
-				status         = __axl_dtd_validate_sequence (parent, child_position, itemList, error, 
-									      already_matched, top_level);
-
-				__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "sequence match status=%d", status);
-				if (! status) {
-					/* check that the match wasn't
-					 * produced, at any level */
-					if ((temp_child_pos != *child_position)) {
-
-						__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "item list mismatch, matched partially (%d != %d)", 
-							   temp_child_pos, *child_position);
-						axl_error_new (-1, 
-							       "Found an DTD item list definition, that should be matched entirely or not, one or many times, but it was matched partially",
-							       NULL, error);
-						return axl_false;
-					}
-				}else {
-					/* set that we have matched, at least, one item */
-					already_matched = axl_true;
-				}
-
-				
-
-			}while (status);
-		}else {
-
-			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "    using a CHOICE form");
-			/* it is a sequence, so, item list
-			 * specification represents the nodes, in the
-			 * order they must appear */
-			already_matched = axl_false;
-			do {
-				/* the next choice matching is done
-				 * according to the value stored in
-				 * already matched */
-				status = __axl_dtd_validate_choice (parent, child_position, itemList, error,
-								    already_matched, top_level);
-				/* if the validation successed, set
-				 * that next matched are not required
-				 * to be successful ones */
-				if (status)
-					already_matched = axl_true;
-			}while (status);
-		}
-		break;
-	default:
-		/* this case will never be reached */
-#define INTERNAL_ERROR_01 "critical error reached a place that shows the dtd parser is not properly defining the repetition pattern for the current itemList."
-		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, INTERNAL_ERROR_01);
-		axl_error_new (-1, INTERNAL_ERROR_01, NULL, error);
-		return axl_false;
-	}
-
+			} /* end if */
 
-	__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "validate item list terminated, now check post-conditions, top_level=%d, item list type=%d, child pos=%d, childs num=%d",
-		   top_level, axl_dtd_item_list_type (itemList), *child_position, axl_node_get_child_num (parent));
+			return optional;
+		} /* end if */
 
-	/* check that, in the case that the choice item list is being
-	 * validated, ensure it has validated all nodes, especially if
-	 * we are the top level definition */
-	if (top_level && (axl_dtd_item_list_type (itemList) == CHOICE)) {
-		if (((*child_position) + 1) < axl_node_get_child_num (parent)) {
-		    
+		/* following matches are optional */
+		optional = axl_true;
 
-			__axl_log (LOG_DOMAIN, AXL_LEVEL_CRITICAL, "found that the choice list didn't cover all childs (%d), while parent=<%s> has: (%d)",
-				   (*child_position), axl_node_get_name (parent), axl_node_get_child_num (parent));
-			axl_error_new (-1, "Found that the validation process didn't cover all nodes, while using a choice list. This means that the xml document have more content than the DTD spec",
-				       NULL, error);
-			return axl_false;
-		}
-	}
+		/* keep on matching for (*) and (+) while nodes are
+		 * consumed */
+	} while ((times == ZERO_OR_MANY || times == ONE_OR_MANY) && temp_child_pos != *child_position);
 	
 	/* element type children validated */
 	return axl_true;       
@@ -2692,30 +2408,16 @@ axl_bool     __axl_dtd_validate_item_list (axlDtdElementList  * itemList,
  */
 axl_bool     __axl_dtd_validate_element_type_children (axlDtdElement  * element, 
 						       axlNode        * parent, 
-						       axl_bool         top_level,
 						       axlError      ** error)
 {
 	axlDtdElementList * itemList;
 	int                 child_pos = 0;
-	char              * err_msg;
 
 	/* get a reference to the item list */
 	itemList = axl_dtd_get_item_list (element);
 
-	/* check for xml nodes with fewer content than the initially
-	 * expected. */
-	if (axl_node_get_child_num (parent) < element->minimum_match) {
-		err_msg = axl_strdup_printf ("Found that the parent node (<%s>) received doesn't contains enough xml nodes inside to get a proper validation (childs found (%d) != childs that should be found (%d)). This means that the xml document have fewer content than the DTD spec.",
-					     axl_node_get_name (parent), 
-					     axl_node_get_child_num (parent), 
-					     element->minimum_match);
-		axl_error_new (-1, err_msg, NULL, error);
-		axl_free (err_msg);
-		return axl_false;
-	}
-
 	/* validate the item list, starting from the child 0 */
-	if (__axl_dtd_validate_item_list (itemList, parent, &child_pos, error, top_level)) {
+	if (__axl_dtd_validate_item_list (itemList, parent, &child_pos, error, axl_false)) {
 		/* check if, at least, all minimum elements was
 		 * matched */
 		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "checking minimum node match: (%d < min: %d) (%d < childs: %d) node=<%s>", 
@@ -2737,6 +2439,31 @@ axl_bool     __axl_dtd_validate_element_type_children (axlDtdElement  * element,
 	return axl_false;
 }
 
+/** 
+ * @internal
+ * Internal support function to validate mixed nodes: every child must
+ * be one of the nodes listed.
+ */
+axl_bool     __axl_dtd_validate_element_type_mixed (axlDtdElement  * element, 
+						    axlNode        * parent, 
+						    axlError      ** error)
+{
+	int child_pos = 0;
+	int prev_pos;
+
+	while (child_pos < axl_node_get_child_num (parent)) {
+		prev_pos = child_pos;
+		__axl_dtd_validate_choice (parent, &child_pos, axl_dtd_get_item_list (element), error, axl_true);
+		if (prev_pos == child_pos) {
+			axl_error_report (error, -1, "Found a child, at position %d, which is not listed by the mixed content declaration of its parent=<%s>",
+					  child_pos, axl_node_get_name (parent));
+			return axl_false;
+		} /* end if */
+	} /* end while */
+
+	return axl_true;
+}
+
 /** 
  * @internal
  * Internal support function to validate #PCDATA nodes.
@@ -3070,7 +2797,6 @@ axl_bool           axl_dtd_validate        (axlDoc * doc, axlDtd * dtd,
 	
 	axlDtdElement      * element;
 	axlDtdElement      * root;
-	axl_bool             top_level;
 	char               * err_msg;
 	axl_bool             result;
 	
@@ -3143,9 +2869,6 @@ axl_bool           axl_dtd_validate        (axlDoc * doc, axlDtd * dtd,
 	stack     = axl_stack_new (NULL);
 	
 
-	/* set that the only top level node is the first one */
-	top_level = axl_true;
-
 	do {
 		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "doing a DTD iteration: <%s>...",
 			   axl_node_get_name (parent));
@@ -3197,7 +2920,7 @@ axl_bool           axl_dtd_validate        (axlDoc * doc, axlDtd * dtd,
 
 			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "  find  CHILDREN dtd element");
 			/* ok, a parent node that have childs */
-			if (!__axl_dtd_validate_element_type_children (element, parent, top_level, error)) {
+			if (!__axl_dtd_validate_element_type_children (element, parent, error)) {
 				/* free id_validation */
 				axl_hash_free (id_validation);
 
@@ -3239,6 +2962,18 @@ axl_bool           axl_dtd_validate        (axlDoc * doc, axlDtd * dtd,
 
 			/* the mixed case, where nodes and PC data
 			 * could be mixed */
+			if (!__axl_dtd_validate_element_type_mixed (element, parent, error)) {
+				/* free id_validation */
+				axl_hash_free (id_validation);
+
+				/* free the stack */
+				axl_stack_free (stack);
+
+				/* free the list */
+				axl_list_free (idref_validation);
+				
+				return axl_false;
+			}
 			break;
 		default:
 			/* do not do any thing on this case */
@@ -3297,9 +3032,6 @@ axl_bool           axl_dtd_validate        (axlDoc * doc, axlDtd * dtd,
 			} /* end if */
 		} /* end if */
 
-		/* set the top level status */
-		top_level = axl_false;
-		
 		/* until the stack is empty */
 	}while (parent != NULL);
 
diff --git a/src/axl_dtd.h b/src/axl_dtd.h
index 1161bf7..23f616c 100644
--- a/src/axl_dtd.h
+++ b/src/axl_dtd.h
@@ -124,7 +124,7 @@ axl_bool     __axl_dtd_validate_item_list (axlDtdElementList  * itemList,
 					   axlNode            * parent, 
 					   int                * child_pos,
 					   axlError          ** error,
-					   axl_bool                 top_level);
+					   axl_bool                 try_match);
 
 
 /* @} */
-- 
2.43.0


From 39d4ba00565c969cf31bef6f752ff0db73f8bf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:53 +0000
Subject: [PATCH 19/76] fix: support process instructions without content while
 dumping and comparing

---
 src/axl_doc.c  |  8 ++++++++
 src/axl_node.c | 15 ++++++++-------
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index b81fce6..a204ee6 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -2981,6 +2981,10 @@ axl_bool      axl_pi_are_equal                 (axlPI * pi,
 	if (! axl_cmp (pi->name, pi2->name))
 		return axl_false;
 
+	/* content is optional */
+	if (pi->content == NULL || pi2->content == NULL)
+		return pi->content == pi2->content;
+
 	/* final check, both content must be equal */
 	return axl_cmp (pi->content, pi2->content);
 }
@@ -3048,6 +3052,10 @@ int       axl_pi_get_size                  (axlPI  * pi)
 {
 	axl_return_val_if_fail (pi, -1);
 
+	/* <?name?> */
+	if (pi->content == NULL)
+		return strlen (pi->name) + 4;
+
 	/* <?name content?> */
 	return strlen (pi->name) + strlen (pi->content) + 5;
 }
diff --git a/src/axl_node.c b/src/axl_node.c
index 0e3d890..4fa92b3 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -4900,14 +4900,15 @@ int __axl_node_dump_items (axlItem * item, char * content, int level, axl_bool p
 			memcpy (content + desp, string_aux, strlen (string_aux));
 			desp += strlen (string_aux);
 			
-			/* write pi start */
-			memcpy (content + desp, " ", 1);
-			desp += 1;
-			
-			/* write pi content */
+			/* write pi content, if defined */
 			string_aux = axl_pi_get_content (item->data);
-			memcpy (content + desp, string_aux, strlen (string_aux));
-			desp += strlen (string_aux);
+			if (string_aux != NULL) {
+				memcpy (content + desp, " ", 1);
+				desp += 1;
+
+				memcpy (content + desp, string_aux, strlen (string_aux));
+				desp += strlen (string_aux);
+			} /* end if */
 			
 			/* write pi start */
 			memcpy (content + desp, "?>", 2);
-- 
2.43.0


From 526a98fd04b56555790157ada7d17fd436b9a362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:00 +0000
Subject: [PATCH 20/76] fix: dump empty comments without reading outside their
 content

---
 src/axl_node.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/axl_node.c b/src/axl_node.c
index 4fa92b3..c897646 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -4692,7 +4692,9 @@ int       axl_node_get_flat_size            (axlNode * node, axl_bool pretty_pri
 			content = (axlNodeContent *) item->data;
 
 			/* check if the content has already defined white spaces */
-			if (content->content[0] == ' ' && content->content[content->content_size - 1] == ' ')
+			if (content->content_size == 0)
+				result += 7;
+			else if (content->content[0] == ' ' && content->content[content->content_size - 1] == ' ')
 				result += content->content_size + 7;
 			else if (content->content[0] != ' ' && content->content[content->content_size - 1] == ' ')
 				result += content->content_size + 8;
@@ -4926,7 +4928,7 @@ int __axl_node_dump_items (axlItem * item, char * content, int level, axl_bool p
 
 			/* add an space if the content is found to not
 			 * have one */
-			if (nodeContent->content [0] == ' ') {
+			if (nodeContent->content_size == 0 || nodeContent->content [0] == ' ') {
 				memcpy (content + desp, "<!--", 4);
 				desp += 4;
 			} else {
@@ -4942,7 +4944,7 @@ int __axl_node_dump_items (axlItem * item, char * content, int level, axl_bool p
 			
 			/* add an space if the content is found to not
 			 * have one */
-			if (nodeContent->content [nodeContent->content_size - 1] == ' ') {
+			if (nodeContent->content_size == 0 || nodeContent->content [nodeContent->content_size - 1] == ' ') {
 				memcpy (content + desp, "-->", 3);
 				desp += 3;
 			} else {
-- 
2.43.0


From 83a27d3edc7dcba014eaa81ac1b41aaa33d122c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:30 +0000
Subject: [PATCH 21/76] fix: compare DTD documents completely (item names,
 nested lists, default values, entities without content)

---
 src/axl_dtd.c | 92 ++++++++++++++++++++++++++++++++-------------------
 1 file changed, 58 insertions(+), 34 deletions(-)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index 435b444..82d57ea 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -3053,6 +3053,57 @@ axl_bool           axl_dtd_validate        (axlDoc * doc, axlDtd * dtd,
 	return result;
 }
 
+/** 
+ * @internal Compares two values that could be not defined.
+ */
+axl_bool __axl_dtd_cmp_optional (const char * value, const char * value2)
+{
+	if (value == NULL || value2 == NULL)
+		return value == value2;
+	return axl_cmp (value, value2);
+}
+
+/** 
+ * @internal Compares two content specifications.
+ */
+axl_bool __axl_dtd_item_list_are_equal (axlDtdElementList * list, axlDtdElementList * list2)
+{
+	int                     iterator;
+	axlDtdElementListNode * node,  * node2;
+
+	if (list == NULL || list2 == NULL)
+		return list == list2;
+
+	/* check internal values */
+	if (list->type != list2->type || list->times != list2->times)
+		return axl_false;
+	if (axl_list_length (list->itemList) != axl_list_length (list2->itemList))
+		return axl_false;
+
+	iterator = 0;
+	while (iterator < axl_list_length (list->itemList)) {
+				
+		/* get references */
+		node  = axl_list_get_nth (list->itemList, iterator);
+		node2 = axl_list_get_nth (list2->itemList, iterator);
+
+		if (node->type != node2->type || node->times != node2->times)
+			return axl_false;
+
+		/* check the item name or the nested list */
+		if (node->type == AXL_ELEMENT_NODE && ! axl_cmp (node->data, node2->data))
+			return axl_false;
+		if (node->type == AXL_ELEMENT_LIST && ! __axl_dtd_item_list_are_equal (node->data, node2->data))
+			return axl_false;
+				
+		/* next value */
+		iterator++;
+
+	} /* end while */
+
+	return axl_true;
+}
+
 /** 
  * @brief Allows to check if the provided two references represents
  * DTD documents with the same rules. 
@@ -3076,7 +3127,6 @@ axl_bool                 axl_dtd_are_equal        (axlDtd * dtd,
 	int iterator3;
 	axlDtdEntity          * entity,      * entity2;
 	axlDtdElement         * element,     * element2;
-	axlDtdElementListNode * node,        * node2;
 	axlDtdAttribute       * attribute,   * attribute2;
 	axlDtdAttributeDecl   * attr_decl,   * attr_decl2;
 
@@ -3114,7 +3164,7 @@ axl_bool                 axl_dtd_are_equal        (axlDtd * dtd,
 			return axl_false;
 
 		/* check content */
-		if (! axl_cmp (entity->content, entity2->content))
+		if (! __axl_dtd_cmp_optional (entity->content, entity2->content))
 			return axl_false;
 
 		/* check external data */
@@ -3123,11 +3173,11 @@ axl_bool                 axl_dtd_are_equal        (axlDtd * dtd,
 		if (entity->data != NULL && entity2->data == NULL)
 			return axl_false;
 		if (entity->data != NULL && entity2->data != NULL) {
-			if (! axl_cmp (entity->data->system_literal, entity2->data->system_literal))
+			if (! __axl_dtd_cmp_optional (entity->data->system_literal, entity2->data->system_literal))
 				return axl_false;
-			if (! axl_cmp (entity->data->public_literal, entity2->data->public_literal))
+			if (! __axl_dtd_cmp_optional (entity->data->public_literal, entity2->data->public_literal))
 				return axl_false;
-			if (! axl_cmp (entity->data->ndata, entity2->data->ndata))
+			if (! __axl_dtd_cmp_optional (entity->data->ndata, entity2->data->ndata))
 				return axl_false;
 		} /* end if */
 
@@ -3155,36 +3205,8 @@ axl_bool                 axl_dtd_are_equal        (axlDtd * dtd,
 			return axl_false;
 
 		/* check element list */
-		if (element->list == NULL && element2->list != NULL)
-			return axl_false;
-		if (element->list != NULL && element2->list == NULL)
+		if (! __axl_dtd_item_list_are_equal (element->list, element2->list))
 			return axl_false;
-		if (element->list != NULL && element2->list != NULL) {
-
-			/* check internal values */
-			if (element->list->type != element2->list->type)
-				return axl_false;
-			if (element->list->times != element2->list->times)
-				return axl_false;
-
-			iterator2 = 0;
-			while (iterator2 < axl_list_length (element->list->itemList)) {
-				
-				/* get references */
-				node  = axl_list_get_nth (element->list->itemList, iterator2);
-				node2 = axl_list_get_nth (element2->list->itemList, iterator2);
-
-				if (node->type != node2->type)
-					return axl_false;
-				if (node->times != node2->times)
-					return axl_false;
-				
-				/* next value */
-				iterator2++;
-
-			} /* end while */
-			
-		} /* end if */
 
 		/* next iterator */
 		iterator++;
@@ -3226,6 +3248,8 @@ axl_bool                 axl_dtd_are_equal        (axlDtd * dtd,
 					return axl_false;
 				if (! axl_cmp (attr_decl->name, attr_decl2->name))
 					return axl_false;
+				if (! __axl_dtd_cmp_optional (attr_decl->default_value, attr_decl2->default_value))
+					return axl_false;
 				
 				if (attr_decl->enumvalues == NULL && attr_decl2->enumvalues != NULL)
 					return axl_false;
-- 
2.43.0


From fe100360d0543cf6cad3f5042a66c7b1ea795fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:20 +0000
Subject: [PATCH 22/76] fix: move the hash cursor to the last item also if it
 is found at the first position of the table

---
 src/axl_hash.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/axl_hash.c b/src/axl_hash.c
index 6cd21cf..03749aa 100644
--- a/src/axl_hash.c
+++ b/src/axl_hash.c
@@ -1551,6 +1551,7 @@ void __axl_hash_cursor_init (axlHashCursor * cursor, axl_bool first)
 	if (first) {
 		/* configure first */
 		cursor->index = 0;
+		cursor->node  = NULL;
 
 		/* foreach element inside the hash, check the first value */
 		while (cursor->index < cursor->hash->hash_size) {
@@ -1569,7 +1570,7 @@ void __axl_hash_cursor_init (axlHashCursor * cursor, axl_bool first)
 		/* find last value */
 		cursor->index = cursor->hash->hash_size - 1;
 		cursor->node  = NULL;
-		while (cursor->index > 0) {
+		while (cursor->index >= 0) {
 			/* check the table at the current position */
 			node = cursor->hash->table[cursor->index];
 			if (node != NULL) {
-- 
2.43.0


From af28f7b4dbcfde28b2fe8ef76e51c6843479a583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:25 +0000
Subject: [PATCH 23/76] fix: do not visit again items of the same table
 position after removing with the hash cursor

---
 src/axl_hash.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/axl_hash.c b/src/axl_hash.c
index 03749aa..79d9cf8 100644
--- a/src/axl_hash.c
+++ b/src/axl_hash.c
@@ -1853,6 +1853,9 @@ void            axl_hash_cursor_remove       (axlHashCursor * cursor)
 	/* configure next item */
 	cursor->node = node;
 	if (cursor->node == NULL) {
+		/* no more items at the current position, items still
+		 * there were already visited */
+		cursor->index++;
 		while (cursor->index < cursor->hash->hash_size) {
 			/* check the table at the current position */
 			if (cursor->hash->table[cursor->index] != NULL) {
-- 
2.43.0


From e8ef820cfbdf1fedbf57880b421dacbb1ebeb0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:30 +0000
Subject: [PATCH 24/76] fix: a NULL string key is only equal to a NULL key, do
 not register ID attributes not defined

---
 src/axl_dtd.c  | 4 ++--
 src/axl_hash.c | 6 ++----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index 82d57ea..6fd45f0 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -2655,8 +2655,8 @@ axl_bool axl_dtd_attr_validate (axlNode * node, axlDtd * dtd, axlError ** error,
 		/* check if the node have TOKENIZED_TYPE_ID */
 		decl = axl_list_lookup (attribute->list, __find_id_decl, NULL);
 		
-		/* if we have a tokenized */
-		if (decl != NULL) {
+		/* if we have a tokenized (optional) */
+		if (decl != NULL && HAS_ATTR (node, decl->name)) {
 
 			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "found ID unique attribute declaration %s=\"%s\"..",
 				   decl->name, ATTR_VALUE (node, decl->name));
diff --git a/src/axl_hash.c b/src/axl_hash.c
index 79d9cf8..12b3434 100644
--- a/src/axl_hash.c
+++ b/src/axl_hash.c
@@ -155,10 +155,8 @@ int             axl_hash_equal_string (axlPointer keya,
 	char * _keyb = keyb;
 	int    i     = 0;
 
-	if (keya == NULL)
-		return (keyb == NULL);
-	if (keyb == NULL)
-		return (keya == NULL);
+	if (keya == NULL || keyb == NULL)
+		return (keya != keyb);
 
 	while (_keya [i] != 0 && _keyb [i] != 0) {
 
-- 
2.43.0


From f33cd875b73bcac1aaa049c5e1093974d126077f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:28 +0000
Subject: [PATCH 25/76] fix: release the list node when the item added is
 already stored

---
 src/axl_list.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/axl_list.c b/src/axl_list.c
index 3be79a9..3467517 100644
--- a/src/axl_list.c
+++ b/src/axl_list.c
@@ -622,6 +622,7 @@ void      axl_list_add    (axlList * list, axlPointer pointer)
 				return;
 			case 0:
 				/* the node found is equal, do not perform any operation */
+				__axl_list_dispose_node (list, new_node);
 				return;
 			case 1:
 			default:
@@ -642,6 +643,7 @@ void      axl_list_add    (axlList * list, axlPointer pointer)
 			case 0:
 
 				/* the node found is equal, do not perform any operation */
+				__axl_list_dispose_node (list, new_node);
 				return;
 			case 1:
 				/* the node should be added after */
-- 
2.43.0


From 4a939f5013cbe865e53e075b727fb075405e0434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:42 +0000
Subject: [PATCH 26/76] fix: axl_list_exists finds items stored with append,
 prepend or not ordered equal functions

---
 src/axl_list.c | 71 +-------------------------------------------------
 1 file changed, 1 insertion(+), 70 deletions(-)

diff --git a/src/axl_list.c b/src/axl_list.c
index 3467517..9cf29e1 100644
--- a/src/axl_list.c
+++ b/src/axl_list.c
@@ -899,75 +899,6 @@ axlListNode * axl_list_internal_linear_lookup_ptr (axlList    * list,
 	return node;
 }
 
-/** 
- * @internal
- * @brief Internal lookup function to locate the axlListNode that contains the pointer.
- *
- * 
- * @param list The list where the lookup will be performed.
- * @param pointer The pointer data to lookup.
- * 
- * @return A reference to the \ref axlListNode or NULL if no pointer
- * is found.
- */
-axlListNode * axl_list_internal_lookup (axlList * list, axlPointer pointer)
-{
-	axlListNode * node;
-	axlListNode * node2;
-
-	axl_return_val_if_fail (list, NULL);
-	axl_return_val_if_fail (pointer, NULL);
-
-	/* complex case */
-	node  = list->first_node;
-	node2 = list->last_node;
-
-	/* lookup */
-	while ((node != NULL) || (node2 != NULL)) {
-		/* lookup the head */
-		if (node != NULL) {
-			switch (list->are_equal (node->data, pointer)) {
-			case -1:
-			default:
-				/* node should be before the node
-				 * found. So we are not going to find
-				 * a node that is lower, the element
-				 * is not in the list.
-				 */
-				return NULL;
-			case 0:
-				return node;
-			case 1:
-				/* the node should be after this one */
-				node = node->next;
-				break;
-			}
-		} /* end if */
-
-		/* lookup from the tail */
-		if (node2 != NULL) {
-			switch (list->are_equal (node2->data, pointer)) {
-			case -1:
-				/* the node should be added before node  */
-				node2 = node2->next;
-				break;
-			case 0:
-				return node2;
-			case 1:
-			default:
-				/* it seems that the node should be
-				 * found after this node but this is
-				 * not going to be possible. The node is not in the list.
-				 */
-				return NULL;
-			}
-		} /* end if */
-	} /* end while */
-
-	return NULL;
-}
-
-
 /** 
  * @internal
  *
@@ -1353,7 +1284,7 @@ axl_bool          axl_list_exists (axlList * list, axlPointer pointer)
 	axl_return_val_if_fail (list, axl_false);
 	axl_return_val_if_fail (pointer, axl_false);
 
-	if (axl_list_internal_lookup (list, pointer) != NULL)
+	if (axl_list_internal_linear_lookup (list, pointer) != NULL)
 		return axl_true;
 	return axl_false;
 }
-- 
2.43.0


From 70ab022be44debcda035100752f7f53af52e40d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:47 +0000
Subject: [PATCH 27/76] fix: the copy of a list holds the same items in the
 same order

---
 src/axl_list.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/axl_list.c b/src/axl_list.c
index 9cf29e1..d8bcff6 100644
--- a/src/axl_list.c
+++ b/src/axl_list.c
@@ -399,8 +399,8 @@ axlList  * axl_list_copy   (axlList * list, axlDuplicateFunc func)
 		if (func != NULL)
 			data = func (data);
 		
-		/* add the data to the new list */
-		axl_list_add (result, data);
+		/* add the data to the new list, at the same position */
+		axl_list_append (result, data);
 
 		/* update index */
 		iterator++;
-- 
2.43.0


From 425bd62eab1cce16ba5c796d8ef8686e7fa7a10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:36 +0000
Subject: [PATCH 28/76] fix: do not read beyond empty strings while comparing
 them

---
 src/axl_list.c   | 12 ++----------
 src/axl_stream.c |  2 +-
 2 files changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/axl_list.c b/src/axl_list.c
index d8bcff6..54c53cd 100644
--- a/src/axl_list.c
+++ b/src/axl_list.c
@@ -425,19 +425,11 @@ axlList  * axl_list_copy   (axlList * list, axlDuplicateFunc func)
  */
 int      axl_list_equal_string (axlPointer a, axlPointer b)
 {
-	int length;
-
 	axl_return_val_if_fail (a, 1);
 	axl_return_val_if_fail (b, 1);
 
-	/* get length */
-	length = strlen (a);
-
-	/* check first that both strings have the same length */
-	if (length != strlen (b))
-		return 1;
-
-	if (axl_stream_cmp (a, b, length))
+	/* check if both strings are equal */
+	if (axl_cmp (a, b))
 		return 0;
 	/* differs */
 	return 1;
diff --git a/src/axl_stream.c b/src/axl_stream.c
index 9d65030..df00b72 100644
--- a/src/axl_stream.c
+++ b/src/axl_stream.c
@@ -2025,7 +2025,7 @@ axl_bool        axl_stream_cmp             (const char * chunk1, const char * ch
 		return axl_false;
 	if (chunk2 == NULL)
 		return axl_false;
-	if (size < 0)
+	if (size <= 0)
 		return axl_false;
 	
 	/* report current comparation status */
-- 
2.43.0


From fc7fd850b11ed2ec42a869115d8a968fd2ead5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:42 +0000
Subject: [PATCH 29/76] fix: axl_list_equal_int orders from small to big
 values, as documented

---
 src/axl_list.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/axl_list.c b/src/axl_list.c
index 54c53cd..92204a9 100644
--- a/src/axl_list.c
+++ b/src/axl_list.c
@@ -489,9 +489,9 @@ int        axl_list_equal_int    (axlPointer a, axlPointer b)
 	if (PTR_TO_INT (a) == PTR_TO_INT (b))
 		return 0;
 	else if (PTR_TO_INT (a) < PTR_TO_INT (b))
-		return -1;
-	else
 		return 1;
+	else
+		return -1;
 }
 
 /** 
-- 
2.43.0


From c15b0baf1441743455ad8e0403c71ada61d0bb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:32 +0000
Subject: [PATCH 30/76] build: compile as gnu89 instead of -ansi

The sources are C90 with GNU/POSIX declarations; -ansi only adds that
line comments are refused. No generated code changes.
---
 configure.ac | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/configure.ac b/configure.ac
index 59d0d19..2c66444 100644
--- a/configure.ac
+++ b/configure.ac
@@ -58,7 +58,7 @@ AC_CHECK_SIZEOF(void *)
 compiler_options=""
 STRICT_PROTOTYPES=""
 if test "$compiler" = "gcc" ; then
-   compiler_options="-Wstrict-prototypes -Wall -Werror -g -ansi -fstack-protector-all -Wstack-protector"
+   compiler_options="-Wstrict-prototypes -Wall -Werror -g -std=gnu89 -fstack-protector-all -Wstack-protector"
    echo "Detected gcc compiler: $compiler, adding options: $compiler_options"
 fi
 AC_SUBST(compiler_options)
@@ -136,7 +136,7 @@ AM_CONDITIONAL(ENABLE_PY_AXL, test "x$python_devel_found" = "xyes")
 compiler_options=""
 STRICT_PROTOTYPES=""
 if test "$compiler" = "gcc" ; then
-   compiler_options="-Wstrict-prototypes -Wall -Werror -g -ansi"
+   compiler_options="-Wstrict-prototypes -Wall -Werror -g -std=gnu89"
    echo "Detected gcc compiler: $compiler, adding options: $compiler_options"
 fi
 AC_SUBST(compiler_options)
-- 
2.43.0


From 0e31e4fb0ea2574a17a4e3cc2a78d7f776c922ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:37 +0000
Subject: [PATCH 31/76] fix: axl_stream_remove considered bytes beyond the
 updated string

---
 src/axl_stream.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/axl_stream.c b/src/axl_stream.c
index df00b72..6645337 100644
--- a/src/axl_stream.c
+++ b/src/axl_stream.c
@@ -2334,11 +2334,13 @@ void        axl_stream_remove            (char * chunk, const char * value, axl_
 			/* update length to the new value */
 			length -= v_length;
 
+			/* terminate the string so bytes left behind are
+			 * not considered on next comparisons */
+			chunk [length] = 0;
+
 			/* check to terminate for first ocurrence */
-			if (first) {
-				chunk [length] = 0;
+			if (first)
 				return;
-			}
 			continue;
 		} /* end if */
 
-- 
2.43.0


From 3aa65e9eefc0ac27e43e41b3d0e392c57f67d0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:54 +0000
Subject: [PATCH 32/76] fix: axl_stream_replace handles binary data, as
 documented

---
 src/axl_stream.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/axl_stream.c b/src/axl_stream.c
index 6645337..78bf6ea 100644
--- a/src/axl_stream.c
+++ b/src/axl_stream.c
@@ -3096,7 +3096,7 @@ int  axl_stream_replace         (char        ** source,      int source_len,
 	count    = 0;
 	while ((iterator + string_len - 1) < source_len) {
 		/* check if the string is found */
-		if (axl_memcmp ((*source) + iterator, string, string_len)) {
+		if (memcmp ((*source) + iterator, string, string_len) == 0) {
 			/* string found ! */
 			count++;
 			
@@ -3125,7 +3125,7 @@ int  axl_stream_replace         (char        ** source,      int source_len,
 	iterator2 = 0;
 	while (iterator < old_source_len) {
 		/* check if the string is found */
-		if (((iterator + string_len - 1) < old_source_len) && axl_memcmp ((*source) + iterator, string, string_len)) {
+		if (((iterator + string_len - 1) < old_source_len) && memcmp ((*source) + iterator, string, string_len) == 0) {
 			/* string found!, replace */
 			memcpy (result + iterator2, replacement, replacement_len);
 			
-- 
2.43.0


From 09d8c9610901c3ce66b83357937d8c66d7de4db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:20 +0000
Subject: [PATCH 33/76] fix: axl_stream_replace never ended when looking for an
 empty string

---
 src/axl_stream.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/axl_stream.c b/src/axl_stream.c
index 78bf6ea..d615c08 100644
--- a/src/axl_stream.c
+++ b/src/axl_stream.c
@@ -3091,6 +3091,10 @@ int  axl_stream_replace         (char        ** source,      int source_len,
 	if (replacement_len == -1)
 		replacement_len = strlen (replacement);
 
+	/* nothing to look for */
+	if (string_len == 0)
+		return source_len;
+
 	/* find how many strings must be replaced */
 	iterator = 0;
 	count    = 0;
-- 
2.43.0


From 3bcd2d4d8889362af8174b11812d07c7aded1def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:43 +0000
Subject: [PATCH 34/76] fix: removing or replacing the first or last item
 updates its parent, whatever its type

---
 src/axl_node.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/axl_node.c b/src/axl_node.c
index c897646..d38d66d 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -6526,8 +6526,8 @@ void          axl_item_remove          (axlItem   * item,
 	if (item->next != NULL)
 		item->next->previous = item->previous;
 
-	/* realloc parent references in the case of a node */
-	if (axl_item_get_type (item) == ITEM_NODE) {
+	/* realloc parent references */
+	if (item->parent != NULL) {
 		if (item->previous == NULL)
 			item->parent->first = item->next;
 
@@ -6538,6 +6538,7 @@ void          axl_item_remove          (axlItem   * item,
 	/* free the item */
 	item->next     = NULL;
 	item->previous = NULL;
+	item->parent   = NULL;
 
 	if (dealloc) {
 		axl_item_free (item, axl_true);
@@ -6580,8 +6581,8 @@ void          axl_item_replace        (axlItem  * item,
 		new_item->next       = item->next;
 	}
 
-	/* realloc parent references in the case of a node */
-	if (axl_item_get_type (item) == ITEM_NODE) {
+	/* realloc parent references */
+	if (item->parent != NULL) {
 		if (item->previous == NULL)
 			item->parent->first = new_item;
 
@@ -6589,14 +6590,15 @@ void          axl_item_replace        (axlItem  * item,
 			item->parent->last = new_item;
 	} /* end if */
 
-	/* free the item */
-	item->next     = NULL;
-	item->previous = NULL;
-
 	/* configure values */
 	new_item->parent = item->parent;
 	new_item->doc    = item->doc;
 
+	/* free the item */
+	item->next     = NULL;
+	item->previous = NULL;
+	item->parent   = NULL;
+
 	if (dealloc) {
 		axl_item_free (item, axl_true);
 
-- 
2.43.0


From e5f376141a5afde4e5075bd4cafc73e67a2b251f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:49 +0000
Subject: [PATCH 35/76] fix: a node removed from its parent no longer refers to
 it

---
 src/axl_node.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/axl_node.c b/src/axl_node.c
index d38d66d..06f86d4 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -3538,6 +3538,7 @@ void      axl_node_remove             (axlNode  * node,
 			/* disconnect the item */
 			item->previous = NULL;
 			item->next     = NULL;
+			item->parent   = NULL;
 		} /* end if */
 
 	} /* end if */
-- 
2.43.0


From 4561f252bfd20e0051802544a82f3fa95be7f825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:54 +0000
Subject: [PATCH 36/76] fix: axl_item_new copies the node received

---
 src/axl_node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/axl_node.c b/src/axl_node.c
index 06f86d4..5dea5b8 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -5904,7 +5904,7 @@ axlItem     * axl_item_new             (AxlItemType type,
 	switch (axl_item_get_type (item)) {
 	case ITEM_NODE:
 		/* item the node */
-		node                 = axl_node_copy (item->data, axl_true, axl_true);
+		node                 = axl_node_copy ((axlNode *) data, axl_true, axl_true);
 		node->holder         = item;
 		item->data           = node;
 		break;
-- 
2.43.0


From 017e8fe7c033680246c47c4e72197f95799fc805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:00 +0000
Subject: [PATCH 37/76] fix: axl_node_free_full honours also_childs

---
 src/axl_node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/axl_node.c b/src/axl_node.c
index 5dea5b8..8c98d59 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -5499,7 +5499,7 @@ void      axl_node_free_full       (axlNode * node, axl_bool also_childs)
 	hash = node->annotate_data;
 
 	/* free node */
-	__axl_node_free_internal (node, axl_false);
+	__axl_node_free_internal (node, also_childs);
 
 	/* free the node itself */
 	if (!(node->conf & NODE_FROM_FACTORY))
-- 
2.43.0


From e3d9aaff71d8ddd2ebd6e3a27f1e6201fd48c4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:06 +0000
Subject: [PATCH 38/76] fix: axl_node_set_name_ref leaked the name configured
 on a parsed node

---
 src/axl_node.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/axl_node.c b/src/axl_node.c
index 8c98d59..2b0be59 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -837,6 +837,7 @@ void      axl_node_set_name_ref             (axlNode * node, char * name)
 
 	/* alloc the new name */
 	node->name = name;
+	node->conf &= ~NODE_NAME_FROM_FACTORY;
 	
 	return;
 }
-- 
2.43.0


From a13b9b9391038ea73eb9cc78b58ddad08777705c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:12 +0000
Subject: [PATCH 39/76] fix: axl_node_replace leaked the holder of a node
 previously detached

---
 src/axl_node.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/axl_node.c b/src/axl_node.c
index 2b0be59..a8a0a33 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -3451,6 +3451,11 @@ void      axl_node_replace             (axlNode   * node,
 			/* get a reference to the holder item */
 			p_item       = node->holder;
 
+			/* release the holder of the new node (left by a
+			 * previous position) */
+			if (new_node->holder != NULL && (new_node->holder->type & ITEM_FROM_FACTORY) == 0)
+				axl_free (new_node->holder);
+
 			/* configure the new node */
 			p_item->data = new_node;
 
-- 
2.43.0


From 702d549b7e2ea20dc7ebb9a4b5c6d63ed7f1b0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:16 +0000
Subject: [PATCH 40/76] fix: removing an attribute re-escaped the values left
 when going from 11 to 10

---
 src/axl_node.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/axl_node.c b/src/axl_node.c
index a8a0a33..47fc515 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -1314,8 +1314,9 @@ axl_bool          axl_node_has_attribute      (axlNode * node, const char * attr
 axl_bool __axl_node_remove_attribute_reinsert  (axlPointer key, axlPointer data, axlPointer user_data)
 {
 	
-	/* re-add attributes into the node */
-	axl_node_set_attribute (user_data, key, data);
+	/* re-add attributes into the node: values are already escaped
+	 * so they must be stored as they are */
+	axl_node_set_attribute_ref (user_data, axl_strdup (key), axl_strdup (data));
 
 	return axl_false; /* do not stop until process all nodes */
 }
-- 
2.43.0


From dae3dbbd1129934297b33c13d51059129353417b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:16 +0000
Subject: [PATCH 41/76] fix: attribute cursor dereferenced NULL without current
 attribute

---
 src/axl_node.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/axl_node.c b/src/axl_node.c
index 47fc515..d860335 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -5696,7 +5696,7 @@ axl_bool                 axl_node_attr_cursor_has_next  (axlAttrCursor * cursor)
 
 	if (cursor->count <= 10) {
 		/* just point to the first attribute (managed as AxlAttribute) */
-		return (((axlNodeAttr *) cursor->data)->next) != NULL;
+		return cursor->data != NULL && (((axlNodeAttr *) cursor->data)->next) != NULL;
 	}  /* end if */
 	
 	/* make hash cursor to point to the first */ 
@@ -5750,7 +5750,7 @@ const char *         axl_node_attr_cursor_get_key   (axlAttrCursor * cursor)
 
 	if (cursor->count <= 10) {
 		/* just point to the first attribute (managed as AxlAttribute) */
-		return ((axlNodeAttr *) cursor->data)->attribute;
+		return cursor->data != NULL ? ((axlNodeAttr *) cursor->data)->attribute : NULL;
 	}  /* end if */
 	
 	/* make hash cursor to point to the first */ 
@@ -5777,7 +5777,7 @@ const char *         axl_node_attr_cursor_get_value (axlAttrCursor * cursor)
 
 	if (cursor->count <= 10) {
 		/* just point to the first attribute (managed as AxlAttribute) */
-		return ((axlNodeAttr *) cursor->data)->value;
+		return cursor->data != NULL ? ((axlNodeAttr *) cursor->data)->value : NULL;
 	}  /* end if */
 	
 	/* make hash cursor to point to the first */ 
-- 
2.43.0


From febcc607460d523c84390c0936d5654d68866eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:57 +0000
Subject: [PATCH 42/76] fix: escaping looked for ]]> beyond the size of the
 content

---
 src/axl_node.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/axl_node.c b/src/axl_node.c
index d860335..b7beb22 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -409,7 +409,7 @@ char * __axl_node_content_copy_and_escape (const char * content,
 		}
 
 		/* check for ]]> declaration */
-		if (content [iterator2] == ']' && content [iterator2 + 1] == ']' && content [iterator2 + 2] == '>') {
+		if (iterator2 + 2 < content_size && content [iterator2] == ']' && content [iterator2 + 1] == ']' && content [iterator2 + 2] == '>') {
 			if (cdata) {
 				memcpy (result + iterator, "]]>]]&gt;<![CDATA[", 18);
 				iterator  += 18;
@@ -5218,7 +5218,7 @@ axl_bool      axl_node_has_invalid_chars_internal        (const char * content,
 		}
 
 		/* check for ]]> */
-		if (content [iterator] == ']' && content [iterator + 1] == ']' && content [iterator + 2] == '>') {
+		if (iterator + 2 < content_size && content [iterator] == ']' && content [iterator + 1] == ']' && content [iterator + 2] == '>') {
 			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "found invalid sequence=']]>'");
 			result = axl_true;
 			if (cdata) {
-- 
2.43.0


From d4a8cba8ce02b4999ad14a0bc299a7c6d55baa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:57 +0000
Subject: [PATCH 43/76] fix: axl_node_set_cdata_content honours the size
 received

---
 src/axl_node.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/axl_node.c b/src/axl_node.c
index b7beb22..b8eb220 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -2996,7 +2996,8 @@ void      axl_node_set_cdata_content  (axlNode    * node,
 			   content_size, copy);
 	} else {
 		/* call to set node content */	
-		copy = axl_strdup (content);
+		copy = axl_new (char, content_size + 1);
+		memcpy (copy, content, content_size);
 	} /* end if */
 
 	/* set content */
-- 
2.43.0


From 5fb01f19659534aeefd420f1fcdf4474399495ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:57 +0000
Subject: [PATCH 44/76] fix: axl_node_content_translate_defaults looked beyond
 the size received

---
 src/axl_node.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/axl_node.c b/src/axl_node.c
index b8eb220..c1c6400 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -475,7 +475,7 @@ char * axl_node_content_translate_defaults (char * content,
 	while (iterator < (*content_size)) {
 		
 		/* check for &apos; */
-		if (axl_stream_cmp (content + iterator, "&apos;", 6)) {
+		if (iterator + 6 <= (*content_size) && axl_stream_cmp (content + iterator, "&apos;", 6)) {
 			content [iterator2] = '\'';
 			iterator2++;
 			
@@ -484,7 +484,7 @@ char * axl_node_content_translate_defaults (char * content,
 		}
 		
 		/* check for &quot; */
-		if (axl_stream_cmp (content + iterator, "&quot;", 6)) {
+		if (iterator + 6 <= (*content_size) && axl_stream_cmp (content + iterator, "&quot;", 6)) {
 			content [iterator2] = '"';
 			iterator2++;
 			
@@ -493,7 +493,7 @@ char * axl_node_content_translate_defaults (char * content,
 		}
 
 		/* check for &amp; */
-		if (axl_stream_cmp (content + iterator, "&amp;", 5)) {
+		if (iterator + 5 <= (*content_size) && axl_stream_cmp (content + iterator, "&amp;", 5)) {
 			content [iterator2] = '&';
 			iterator2++;
 			
@@ -502,7 +502,7 @@ char * axl_node_content_translate_defaults (char * content,
 		}
 
 		/* check for &gt; */
-		if (axl_stream_cmp (content + iterator, "&gt;", 4)) {
+		if (iterator + 4 <= (*content_size) && axl_stream_cmp (content + iterator, "&gt;", 4)) {
 			content [iterator2] = '>';
 			iterator2++;
 			
@@ -511,7 +511,7 @@ char * axl_node_content_translate_defaults (char * content,
 		}
 
 		/* check for &lt; */
-		if (axl_stream_cmp (content + iterator, "&lt;", 4)) {
+		if (iterator + 4 <= (*content_size) && axl_stream_cmp (content + iterator, "&lt;", 4)) {
 			content [iterator2] = '<';
 			iterator2++;
 			
-- 
2.43.0


From 31b90fe7f4ec5f44c7e4b3cb6fc1c73629d1d4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:08 +0000
Subject: [PATCH 45/76] fix: axl_node_dump_to_file wrote a pretty dump

---
 src/axl_node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/axl_node.c b/src/axl_node.c
index c1c6400..54eeb02 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -4371,7 +4371,7 @@ axl_bool      axl_node_dump_to_file            (axlNode  * node,
 	int    written;
 
 	/* use common implementation for all functions */
-	if (!  __axl_node_dump_common (node, &content, &size, axl_true, 0, 0))
+	if (!  __axl_node_dump_common (node, &content, &size, axl_false, 0, 0))
 		return axl_false;
 
 	/* open the file and check */
-- 
2.43.0


From a1050bc119e604b21c34eda82f46c7e8027f3013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:36 +0000
Subject: [PATCH 46/76] fix: axl_doc_are_equal compares content byte by byte,
 as documented

---
 src/axl_doc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index a204ee6..e2c3da9 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -2266,8 +2266,8 @@ axl_bool      axl_doc_are_equal_trimmed        (axlDoc * doc,
 axl_bool      axl_doc_are_equal                (axlDoc * doc, 
 						axlDoc * doc2)
 {
-	/* call to common implemenation, activating triming */
-	return axl_doc_are_equal_common (doc, doc2, axl_true, NULL);
+	/* call to common implemenation, without triming */
+	return axl_doc_are_equal_common (doc, doc2, axl_false, NULL);
 }
 
 /** 
-- 
2.43.0


From b9949c14d707a9ed772f513d56289ad34216cfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:35 +0000
Subject: [PATCH 47/76] fix: axl_doc_get_list returns every node matching the
 path, and implements '*'

---
 src/axl_doc.c | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index e2c3da9..d04c80d 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -2418,12 +2418,14 @@ int __axl_doc_get_are_equal (axlPointer a, axlPointer b)
 axlList * axl_doc_get_list                  (axlDoc * doc, const char * path_to)
 {
 	axlList  * nodes;
+	axlList  * found;
 	axlNode  * node     = NULL;
 	int        iterator = 0;
 	char    ** paths    = 0;
 	
 
 	axl_return_val_if_fail (doc, NULL);
+	axl_return_val_if_fail (doc->rootNode, NULL);
 	axl_return_val_if_fail (path_to, NULL);
 	axl_return_val_if_fail (path_to[0] == '/', NULL);
 
@@ -2452,6 +2454,7 @@ axlList * axl_doc_get_list                  (axlDoc * doc, const char * path_to)
 	__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "found node: %s for path=%s", paths[1], path_to);
 
 	/* now the general case */
+	axl_list_add (nodes, node);
 	iterator = 2;
 	while ((paths[iterator] != NULL) && (strlen (paths[iterator]) > 0)) {
 		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "checking path item %s", paths[iterator]);
@@ -2465,9 +2468,24 @@ axlList * axl_doc_get_list                  (axlDoc * doc, const char * path_to)
 			return NULL;
 		}
 
-		/* get a reference to the node searched */
-		node = axl_node_get_child_called (node, paths[iterator]);
-		if (node == NULL) {
+		/* get all nodes matching this step, that is, childs
+		 * (of any node found for the previous step) called as
+		 * requested or all of them in the case of '*' */
+		found = axl_list_new (__axl_doc_get_are_equal, NULL);
+		while (axl_list_length (nodes) > 0) {
+			node = axl_node_get_first_child (axl_list_get_first (nodes));
+			while (node != NULL) {
+				if (axl_cmp (paths[iterator], "*") || NODE_CMP_NAME (node, paths[iterator]))
+					axl_list_add (found, node);
+				node = axl_node_get_next (node);
+			} /* end while */
+			axl_list_remove_first (nodes);
+		} /* end while */
+
+		/* update current nodes found */
+		axl_list_free (nodes);
+		nodes = found;
+		if (axl_list_length (nodes) == 0) {
 			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "the node located at %s wasn't found.", path_to);
 
 			axl_list_free (nodes);
@@ -2480,13 +2498,10 @@ axlList * axl_doc_get_list                  (axlDoc * doc, const char * path_to)
 		iterator++;
 	}
 
-	/* add the node found */
-	axl_list_add (nodes, node);
-
 	/* free paths */
 	axl_stream_freev (paths);
 
-	/* return the node found */
+	/* return the nodes found */
 	return nodes;
 }
 
-- 
2.43.0


From 11902ef2e26ead47afc5127d7c4df91cb676687d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:19 +0000
Subject: [PATCH 48/76] fix: names in DTD declarations may be followed by any
 white space

---
 src/axl_dtd.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index 6fd45f0..03488df 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -1220,7 +1220,7 @@ axl_bool     __axl_dtd_parse_element (axlDtd * dtd, axlStream * stream, axlError
 	AXL_CONSUME_SPACES (stream);
 	
 	/* get the element name */
-	string_aux = axl_stream_get_until (stream, NULL, &matched_chunk, axl_false, 3, ">", "(", " ", "<!ELEMENT");
+	string_aux = axl_stream_get_until (stream, NULL, &matched_chunk, axl_false, 6, ">", "(", " ", "\n", "\t", "\r");
 	if (string_aux == NULL) {
 		axl_error_new (-1, "Expected to receive a DTD element name for <!ELEMENT declaration, but not found", stream, error);
 		axl_stream_free (stream);
@@ -1228,7 +1228,7 @@ axl_bool     __axl_dtd_parse_element (axlDtd * dtd, axlStream * stream, axlError
 	}
 
 	/* check that the DTD have an element name and an element type */
-	if ((matched_chunk == 0) || (matched_chunk == 3)) {
+	if (matched_chunk == 0) {
 		axl_error_new (-1, "Found a DTD <!ELEMENT declaration, without content specification. Missing value, examples: EMPTY, ANY, (..)", stream, error);
 		axl_stream_free (stream);
 		return axl_false;
@@ -1507,7 +1507,7 @@ axl_bool __axl_dtd_parse_attlist (axlDtd * dtd, axlStream * stream, axlError **
 	AXL_CONSUME_SPACES (stream);
 
 	/* get the element name */
-	string_aux = axl_stream_get_until (stream, NULL, &matched_chunk, axl_false, 1, " ");
+	string_aux = axl_stream_get_until (stream, NULL, &matched_chunk, axl_false, 4, " ", "\n", "\t", "\r");
 	if (string_aux == NULL) {
 		axl_error_new (-1, "Expected to receive a DTD attribute name for <!ATTLIST declaration, but not found", stream, error);
 		axl_stream_free (stream);
@@ -1547,7 +1547,7 @@ axl_bool __axl_dtd_parse_attlist (axlDtd * dtd, axlStream * stream, axlError **
 			break;
 
 		/* get the attribute name the rules applies */
-		string_aux = axl_stream_get_until (stream, NULL, &matched_chunk, axl_false, 1, " ");
+		string_aux = axl_stream_get_until (stream, NULL, &matched_chunk, axl_false, 4, " ", "\n", "\t", "\r");
 		if (string_aux == NULL) {
 			axl_error_new (-1, "Expected to receive an attribute name for <!ATTLIST declaration, but not found", stream, error);
 			axl_stream_free (stream);
@@ -1825,7 +1825,7 @@ axl_bool __axl_dtd_parse_entity (axlDtd * dtd, axlStream * stream, axlError ** e
 		entity->type = GENERAL_ENTITY;
 
 	/* get the element name */
-	string_aux = axl_stream_get_until (stream, NULL, &matched_chunk, axl_false, 1, " ");
+	string_aux = axl_stream_get_until (stream, NULL, &matched_chunk, axl_false, 4, " ", "\n", "\t", "\r");
 	if (string_aux == NULL) {
 		axl_error_new (-1, "Expected to receive a DTD entity name for <!ENTITY declaration, but not found", stream, error);
 		axl_stream_free (stream);
-- 
2.43.0


From 911faf8fcc605d11b0d9f5f019cd5f313faacdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:19 +0000
Subject: [PATCH 49/76] fix: axl_dtd_get_attr_contraints crashed for nodes
 without declarations

---
 src/axl_dtd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index 03488df..4b3d232 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -3420,7 +3420,7 @@ int                  axl_dtd_get_attr_contraints (axlDtd * dtd,
 	attr = axl_dtd_get_attr (dtd, nodeName);
 
 	/* return the number of items */
-	return axl_list_length (attr->list);
+	return (attr != NULL) ? axl_list_length (attr->list) : 0;
 }
 
 /** 
-- 
2.43.0


From e27687d6aafe15293647314b5f5f7b4ee9f9f41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:19 +0000
Subject: [PATCH 50/76] fix: DTD attribute validation leaked the error when the
 caller provides no reference

---
 src/axl_dtd.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index 4b3d232..59669b9 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -2628,6 +2628,8 @@ axl_bool axl_dtd_attr_validate (axlNode * node, axlDtd * dtd, axlError ** error,
 		/* reconfigure error returned */
 		if (error != NULL)
 			*error = _error;
+		else
+			axl_error_free (_error);
 		return axl_false;
 	} /* end if */
 		
-- 
2.43.0


From b3e7891ba2dabe6b2bafd4ae96386b8721e03046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:19 +0000
Subject: [PATCH 51/76] fix: references found at IDREFS attributes are checked

---
 src/axl_dtd.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index 59669b9..7257c0b 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -2611,6 +2611,8 @@ axl_bool axl_dtd_attr_validate (axlNode * node, axlDtd * dtd, axlError ** error,
 	axlDtdAttributeDecl * decl;
 	char                * err_msg;
 	int                   iterator;
+	int                   iterator2;
+	char               ** references;
 	axlError            * _error = NULL;
 
 	/* find attribute contraints for the node */
@@ -2698,8 +2700,19 @@ axl_bool axl_dtd_attr_validate (axlNode * node, axlDtd * dtd, axlError ** error,
 				if (ATTR_VALUE (node, decl->name)) {
 					/* store the id ref reference
 					 * if defined */
-					axl_list_add (idref_validation, (axlPointer) ATTR_VALUE (node, decl->name));
+					axl_list_add (idref_validation, axl_strdup (ATTR_VALUE (node, decl->name)));
 				}
+			} else if (decl->type == TOKENIZED_TYPE_IDREFS && ATTR_VALUE (node, decl->name)) {
+				/* found a list of references, store
+				 * each one */
+				references = axl_stream_split (ATTR_VALUE (node, decl->name), 4, " ", "\n", "\t", "\r");
+				iterator2  = 0;
+				while (references != NULL && references[iterator2] != NULL) {
+					if (strlen (references[iterator2]) > 0)
+						axl_list_add (idref_validation, axl_strdup (references[iterator2]));
+					iterator2++;
+				} /* end while */
+				axl_stream_freev (references);
 			} /* end if */
 
 			/* get the next */
@@ -2847,7 +2860,7 @@ axl_bool           axl_dtd_validate        (axlDoc * doc, axlDtd * dtd,
 	/* check if the dtd contains Id ref declarations */
 	if (dtd->haveIdRefDecl) {
 		/* create a list that could contain all references done */
-		idref_validation = axl_list_new (axl_list_always_return_1, NULL);
+		idref_validation = axl_list_new (axl_list_always_return_1, axl_free);
 	} /* end if */
 
 	/* check empty content spec */
-- 
2.43.0


From 34a9efe50aef2a004420ca778cd65392ea17769c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:28 +0000
Subject: [PATCH 52/76] fix: the list of PIs of a node does not own them
 (double free)

---
 src/axl_node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/axl_node.c b/src/axl_node.c
index 54eeb02..d30bef8 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -4532,7 +4532,7 @@ axlList * axl_node_get_pi_target_list       (axlNode * node)
 		if (axl_item_get_type (item) == ITEM_PI) {
 			/* create the result list */
 			if (result == NULL)
-				result = axl_list_new (axl_list_always_return_1, (axlDestroyFunc) axl_pi_free);	 
+				result = axl_list_new (axl_list_always_return_1, NULL);	 
 
 			/* add the list */
 			axl_list_add (result, item->data);
-- 
2.43.0


From dcc4087f656588d09fcef952bfc6883c66c5f64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:16 +0000
Subject: [PATCH 53/76] fix: PI target may be followed by any white space

---
 src/axl_doc.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index d04c80d..0d671b7 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -3541,8 +3541,8 @@ axl_bool      axl_doc_consume_pi (axlDoc * doc, axlNode * node,
 		/* found a pi target initialization */
 		axl_stream_accept (stream);
 		
-		string_aux = axl_stream_get_until (stream, NULL, &matched_chunk, axl_true, 3, 
-						   " ?>", "?>", " ");
+		string_aux = axl_stream_get_until (stream, NULL, &matched_chunk, axl_true, 6, 
+						   " ?>", "?>", " ", "\n", "\t", "\r");
 		/* check error reported */
 		if (string_aux == NULL) {
 			axl_error_new (-1, "Found a error while reading the PI target name", stream, error);
@@ -3578,7 +3578,7 @@ axl_bool      axl_doc_consume_pi (axlDoc * doc, axlNode * node,
 		}
 
 		/* seems that we have additional content to be read */
-		if (matched_chunk == 2) {
+		if (matched_chunk >= 2) {
 			/* make a local copy for the PI target name
 			 * read previously */
 			string_aux  = axl_strdup (string_aux);
-- 
2.43.0


From 6ff986fd551e7d746b29e3bd940345486ae9e1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:52 +0000
Subject: [PATCH 54/76] fix: attributes whose name just starts with xmlns are
 not namespace declarations

---
 ns/axl_ns_doc.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ns/axl_ns_doc.c b/ns/axl_ns_doc.c
index 91e0772..8bc8a77 100644
--- a/ns/axl_ns_doc.c
+++ b/ns/axl_ns_doc.c
@@ -84,6 +84,12 @@ void __axl_ns_free_table (axlNsTable * table)
 	return;
 } /* end __axl_ns_free_table */
 
+/* check if the attribute name is a namespace declaration (xmlns or xmlns:prefix) */
+axl_bool __axl_ns_is_decl (const char * attr)
+{
+	return axl_cmp (attr, "xmlns") || axl_memcmp (attr, "xmlns:", 6);
+}
+
 /* check and install all ns declerations found on this node */
 axl_bool __axl_ns_node_check_and_install_ns_decls (axlNode * node, axlAttrCursor * cursor, axlError ** error)
 {
@@ -96,7 +102,7 @@ axl_bool __axl_ns_node_check_and_install_ns_decls (axlNode * node, axlAttrCursor
 
 		/* get the key */
 		attr = axl_node_attr_cursor_get_key (cursor);
-		if (! axl_memcmp (attr, "xmlns", 5)) {
+		if (! __axl_ns_is_decl (attr)) {
 			/* no xml namespace declaration found, go next */
 			axl_node_attr_cursor_next (cursor);
 			continue;
@@ -257,7 +263,7 @@ axl_bool __axl_ns_node_validate (axlNode * node, axlError ** error)
 			
 			/* get the key */
 			name = (char*) axl_node_attr_cursor_get_key (cursor);
-			if (axl_memcmp (name, "xmlns", 5)) {
+			if (__axl_ns_is_decl (name)) {
 				/* skip namespace declarations */
 				axl_node_attr_cursor_next (cursor);
 				continue;
-- 
2.43.0


From cbd9e6ad9ebcbe01ebc262032ccf7477bd9b8f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:52 +0000
Subject: [PATCH 55/76] fix: the xml prefix is bound without declaration

---
 ns/axl_ns_doc.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ns/axl_ns_doc.c b/ns/axl_ns_doc.c
index 8bc8a77..9dfb7b7 100644
--- a/ns/axl_ns_doc.c
+++ b/ns/axl_ns_doc.c
@@ -55,6 +55,12 @@
  */
 #define NS_TABLE "__axl:ns-table"
 
+/** 
+ * @internal Namespace the xml prefix is bound to, which requires no
+ * declaration.
+ */
+#define NS_XML "http://www.w3.org/XML/1998/namespace"
+
 
 /** 
  * @internal Table used to hold bindings from prefix declared and
@@ -231,7 +237,7 @@ axl_bool __axl_ns_node_validate (axlNode * node, axlError ** error)
 			ns_table = axl_node_annotate_get (parent, NS_TABLE, axl_false);
 
 			/* check the namespace */
-			if (ns_table != NULL && axl_hash_exists (ns_table->table, name)) {
+			if (axl_cmp (name, "xml") || (ns_table != NULL && axl_hash_exists (ns_table->table, name))) {
 				/* prefix found, restore node name */
 				name[iterator] = ':';
 				break;
@@ -296,7 +302,7 @@ axl_bool __axl_ns_node_validate (axlNode * node, axlError ** error)
 					ns_table = axl_node_annotate_get (parent, NS_TABLE, axl_false);
 					
 					/* check the namespace */
-					if (ns_table != NULL && axl_hash_exists (ns_table->table, name)) {
+					if (axl_cmp (name, "xml") || (ns_table != NULL && axl_hash_exists (ns_table->table, name))) {
 						/* prefix found, restore attribute name */
 						name[iterator] = ':';
 						break;
@@ -479,6 +485,10 @@ axl_bool axl_ns_doc_node_check (axlNode    * node,
 	axlNode    * parent   = node;
 	axlNsTable * ns_table = NULL;
 
+	/* the xml prefix requires no declaration */
+	if (axl_cmp (ns_prefix, "xml"))
+		return axl_cmp (ns, NS_XML);
+
 	/* foreach node, up to the root parent, starting from the node
 	 * provided, do: */
 	while (parent != NULL) {
-- 
2.43.0


From c7d1efaf74839a52cccf81a006adf68341e044e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:52 +0000
Subject: [PATCH 56/76] fix: namespace validation kept references to attributes
 that can be removed, and declarations already removed

---
 ns/axl_ns_doc.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ns/axl_ns_doc.c b/ns/axl_ns_doc.c
index 9dfb7b7..7797787 100644
--- a/ns/axl_ns_doc.c
+++ b/ns/axl_ns_doc.c
@@ -73,7 +73,7 @@ typedef struct _axlNsTable {
 	axlHash * table;
 	
 	/* default namespace to be used */
-	const char * defaultNs;
+	char * defaultNs;
 } axlNsTable;
 
 void __axl_ns_free_table (axlNsTable * table)
@@ -83,6 +83,7 @@ void __axl_ns_free_table (axlNsTable * table)
 
 	/* free table */
 	axl_hash_free (table->table);
+	axl_free (table->defaultNs);
 
 	/* free node */
 	axl_free (table);
@@ -139,7 +140,7 @@ axl_bool __axl_ns_node_check_and_install_ns_decls (axlNode * node, axlAttrCursor
 			default_found = axl_true;
 			
 			/* copy the default namespace */
-			ns_table->defaultNs = axl_node_attr_cursor_get_value (cursor);
+			ns_table->defaultNs = axl_strdup (axl_node_attr_cursor_get_value (cursor));
 			
 			/* go next */
 			axl_node_attr_cursor_next (cursor);
@@ -165,7 +166,7 @@ axl_bool __axl_ns_node_check_and_install_ns_decls (axlNode * node, axlAttrCursor
 		} /* end if */
 		
 		/* install it in the current ns hash table */
-		axl_hash_insert (ns_table->table, (axlPointer) attr, (axlPointer) axl_node_attr_cursor_get_value (cursor));
+		axl_hash_insert_full (ns_table->table, axl_strdup (attr), axl_free, axl_strdup (axl_node_attr_cursor_get_value (cursor)), axl_free);
 
 		/* get next attribute */
 		axl_node_attr_cursor_next (cursor);
@@ -193,6 +194,10 @@ axl_bool __axl_ns_node_validate (axlNode * node, axlError ** error)
 	/* create the cursor */
 	axlAttrCursor * cursor = NULL;
 
+	/* forget declarations found by a previous validation */
+	if (axl_node_annotate_get (node, NS_TABLE, axl_false))
+		axl_node_annotate_data (node, NS_TABLE, NULL);
+
 	/* check if the node has a namespace declaration */
 	if (axl_node_has_attributes (node)) {
 
-- 
2.43.0


From d3ae3b80c46e415c2213c19b1fa985e9d967051f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:49 +0000
Subject: [PATCH 57/76] fix: errors while reading a file were taken as content
 (negative size) or as the end of the document

---
 src/axl_doc.c    |  7 ++++++
 src/axl_dtd.c    |  6 +++++
 src/axl_stream.c | 62 +++++++++++++++++++++++++++++++++++++++---------
 src/axl_stream.h |  2 ++
 src/libaxl.def   |  1 +
 5 files changed, 67 insertions(+), 11 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index 0d671b7..9cfa9a9 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -1402,6 +1402,13 @@ axlDoc * __axl_doc_parse_common (const char * entity, int entity_size,
 		return NULL;
 	} /* end if */
 
+	/* check that all the content was read */
+	if (axl_stream_read_failed (stream)) {
+		axl_error_new (-1, "failed to read the document, an error was found while reading its content", stream, error);
+		axl_stream_free (stream);
+		return NULL;
+	} /* end if */
+
 	/* parse complete */
 	axl_stream_unlink (stream);
 	axl_stream_free (stream);
diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index 7257c0b..e91b426 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -1958,6 +1958,12 @@ axlDtd * __axl_dtd_parse_common (const char * entity, int entity_size,
 		iterator++;
 	}
 
+	/* check that all the content was read */
+	if (axl_stream_read_failed (stream)) {
+		axl_error_new (-1, "failed to read the DTD, an error was found while reading its content", stream, error);
+		axl_stream_free (stream);
+		return NULL;
+	} /* end if */
 
 	__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "DTD elements totally loaded, building references..");
 
diff --git a/src/axl_stream.c b/src/axl_stream.c
index d615c08..bc45089 100644
--- a/src/axl_stream.c
+++ b/src/axl_stream.c
@@ -39,6 +39,7 @@
 
 #include <axl.h>
 #include <math.h>
+#include <errno.h>
 
 #define LOG_DOMAIN "axl-stream"
 
@@ -131,6 +132,12 @@ struct _axlStream {
 	 * associated. */
 	int           fd;
 
+	/* Signals that reading from the file descriptor failed
+	 * (including content found that can't be decoded or is not
+	 * valid) so the content provided is not the complete source.
+	 */
+	axl_bool      read_failed;
+
 	/* Temporal buffer used by the stream to handle prebuffering
 	 * operations.
 	 */
@@ -231,6 +238,38 @@ struct _axlStream {
  * @{
  */
 
+/** 
+ * @internal Reads content from the stream's file descriptor, retrying
+ * if the operation was interrupted. Failures are recorded at the
+ * stream so they are not confused with the end of the content.
+ */
+int __axl_stream_read (axlStream * stream, char * buffer, int size)
+{
+	int bytes_read;
+
+	do {
+		bytes_read = read (stream->fd, buffer, size);
+	} while (bytes_read < 0 && errno == EINTR);
+
+	if (bytes_read < 0) {
+		__axl_log (LOG_DOMAIN, AXL_LEVEL_CRITICAL, "failed to read content from the file descriptor, errno=%d", errno);
+		stream->read_failed = axl_true;
+	} /* end if */
+
+	return bytes_read;
+}
+
+/** 
+ * @internal Allows to check if the stream failed to read its source,
+ * that is, content provided by the stream isn't complete.
+ */
+axl_bool axl_stream_read_failed (axlStream * stream)
+{
+	axl_return_val_if_fail (stream, axl_false);
+
+	return stream->read_failed;
+}
+
 /** 
  * @internal
  *
@@ -252,8 +291,8 @@ struct _axlStream {
  */
 axl_bool axl_stream_prebuffer (axlStream * stream)
 {
-	int  bytes_read;
-	int  op_result;
+	int  bytes_read = 0;
+	int  op_result  = 0;
 
 	/* check some environment conditions */
 	axl_return_val_if_fail (stream, axl_false);
@@ -355,6 +394,7 @@ axl_bool axl_stream_prebuffer (axlStream * stream)
 							 /* output decoded */
 							 &bytes_read, &op_result, NULL)) {
 					__axl_log (LOG_DOMAIN, AXL_LEVEL_CRITICAL, "failed to decode content at the temporal decode buffer");
+					stream->read_failed = axl_true;
 					return axl_false;
 				} /* end if */
 
@@ -384,13 +424,13 @@ axl_bool axl_stream_prebuffer (axlStream * stream)
 			/* check if there are still space to decode at the stream */
 			if ((stream->buffer_size - stream->stream_size) > 0) {
 				/* read content inside the decde temp buffer */
-				bytes_read = read (stream->fd, stream->decode_temp + stream->decode_temp_last,
-						   stream->decode_temp_size - stream->decode_temp_last);
+				bytes_read = __axl_stream_read (stream, stream->decode_temp + stream->decode_temp_last,
+								stream->decode_temp_size - stream->decode_temp_last);
 				
 				/* update the amount of data available tat the decode temp */
 				if (bytes_read > 0)
 					stream->decode_temp_last += bytes_read;
-				else if (bytes_read == 0 && stream->fd > 0) {
+				else if (stream->fd > 0) {
 					__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "end of file reached");
 					close (stream->fd);
 					stream->fd = -1;
@@ -414,23 +454,23 @@ axl_bool axl_stream_prebuffer (axlStream * stream)
 			   stream->stream_index, stream->stream_size, stream->stream_size, stream->buffer_size - stream->stream_size);
 
 		/* read current content */
-		bytes_read = read (stream->fd, stream->stream + stream->stream_size,
-				   stream->buffer_size - stream->stream_size);
-
+		bytes_read = __axl_stream_read (stream, stream->stream + stream->stream_size,
+						stream->buffer_size - stream->stream_size);
 
 		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "   bytes read from the file, size %d", bytes_read);
 
 		/* call to check */
-		if (stream->check_f) {
+		if (stream->check_f && bytes_read > 0) {
 			/* call to check */
 			if (! axl_stream_content_check (stream, stream->stream + stream->stream_size, bytes_read, NULL)) {
 				__axl_log (LOG_DOMAIN, AXL_LEVEL_CRITICAL, "failed to prebuffer, content check function have failed");
+				stream->read_failed = axl_true;
 				return axl_false;
 			}
 		} /* end if */
 		
-		/* check for end of file reached */
-		if (bytes_read == 0) {
+		/* check for end of file reached (or read failure) */
+		if (bytes_read <= 0) {
 			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "end of file reached");
 			close (stream->fd);
 			stream->fd = -1;
diff --git a/src/axl_stream.h b/src/axl_stream.h
index 4557f28..416a588 100644
--- a/src/axl_stream.h
+++ b/src/axl_stream.h
@@ -73,6 +73,8 @@ axl_bool    axl_stream_fall_outside    (axlStream * stream, int inspected_size);
 
 axl_bool    axl_stream_check           (axlStream * stream, char * chunk, int inspected_size);
 
+axl_bool    axl_stream_read_failed     (axlStream * stream);
+
 char      * axl_stream_get_until       (axlStream * stream, 
 					char      * valid_chars, 
 					int       * chunk_matched,
diff --git a/src/libaxl.def b/src/libaxl.def
index fb84987..1ede128 100644
--- a/src/libaxl.def
+++ b/src/libaxl.def
@@ -451,6 +451,7 @@ axl_stream_printf_buffer
 axl_stream_printf_len
 axl_stream_printf_limit
 axl_stream_push
+axl_stream_read_failed
 axl_stream_remains
 axl_stream_remove
 axl_stream_replace
-- 
2.43.0


From 1fc829d7e9b309465862ead46489bc1a1301b0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:49 +0000
Subject: [PATCH 58/76] fix: inspecting the stream with part of the content
 still to be read compared content never read

---
 src/axl_stream.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/axl_stream.c b/src/axl_stream.c
index bc45089..12b7373 100644
--- a/src/axl_stream.c
+++ b/src/axl_stream.c
@@ -732,6 +732,10 @@ int         axl_stream_inspect (axlStream * stream, const char * chunk, int insp
 axl_bool         axl_stream_inspect_code    (axlStream * stream, char value, int offset)
 {
 	axl_return_val_if_fail (stream, axl_false);
+
+	/* check there is content at the position */
+	if (axl_stream_fall_outside (stream, offset + 1))
+		return axl_false;
 	
 	/* check the value */
 	return stream->stream [stream->stream_index + offset] == value;
@@ -2130,9 +2134,11 @@ axl_bool        axl_stream_casecmp           (const char * chunk1, const char *
  */
 axl_bool axl_stream_fall_outside (axlStream * stream, int inspected_size)
 {
-	/* if the content is inside memory, check it */
-	if (fall_out_side_checking (stream, inspected_size)) {
-		return (! axl_stream_prebuffer (stream));
+	/* if the content isn't inside memory, read until having
+	 * enough content (each read may provide less than required) */
+	while (fall_out_side_checking (stream, inspected_size)) {
+		if (! axl_stream_prebuffer (stream))
+			return axl_true;
 	}
 	
 	/* otherwise, axl_false is returned */
@@ -2155,6 +2161,10 @@ axl_bool         axl_stream_check           (axlStream * stream, char * chunk, i
 {
 	int iterator;
 
+	/* check there is enough content to compare */
+	if (axl_stream_fall_outside (stream, inspected_size))
+		return axl_false;
+
 	/* call to the internal implementation of axl_memcmp */
 	_memcmp(iterator,chunk,(stream->stream + stream->stream_index), inspected_size);
 
-- 
2.43.0


From 9961fccb818ec1fcd84590353c2873a13e16f701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:20 +0000
Subject: [PATCH 59/76] fix: terminators split between two reads were not
 found, and reading until a terminator at the end of the file failed

---
 src/axl_stream.c | 97 ++++++++++--------------------------------------
 1 file changed, 19 insertions(+), 78 deletions(-)

diff --git a/src/axl_stream.c b/src/axl_stream.c
index 12b7373..da5cb10 100644
--- a/src/axl_stream.c
+++ b/src/axl_stream.c
@@ -1370,78 +1370,35 @@ char * __axl_stream_get_untilv_wide (axlStream * stream, va_list args)
 		iterator ++;
 	}
 
-	/* calculate how many bytes ara available */
-	remains = stream->stream_size - stream->stream_index;
-
-	__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "remaining data to be inspected: %d bytes (stream->stream-size=%d, stream->stream-index=%d)",
-		   remains, stream->stream_size, stream->stream_index);
-
 	/* now we have chunks to lookup, stream until get the stream
 	 * limited by the chunks received. */
 	do {
 
-		/* decrease remain bytes to be read until perform a
-		 * prebuffer operation */
-		remains--;
-
-		/* only prebuffer for this type of stream */
-		if (stream->type == STREAM_FD) {
-			
-			/* check if the index is falling out side the buffer boundaries */
-			if (remains < 0) {
-
-				if (! axl_stream_prebuffer (stream)) {
-					/* check if a call to zero was found */
-					if (stream->zero) {
-						/* flag that chunk matched
-						 * will be -2 */
-						stream->chunk_matched = -2;
-						goto matched_return_result;
-					} /* end if */
-					__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "failed while prebuffer (stream->type = %d)", stream->type);
-
-					return NULL;
-				}
-				
-				/* update remains value but this time removing
-				 * one unit (the unit to be consumed at the
-				 * next sentence) */
-				remains = stream->stream_size - index - 1;
-
-				/* work around: because the index is updated
-				 * at the end of the loop, it is required to
-				 * decrease the index in one unit in the case
-				 * a prebuffer operation happens */
-				if (index > 0) {
-					index--;
-				}
-				
+		/* get how many bytes are available at the current
+		 * index, reading more content (if possible) in the
+		 * case there is not enough to compare all chunks */
+		remains = stream->stream_size - stream->stream_index - index;
+		while ((remains < max_length || remains < 1) && axl_stream_prebuffer (stream))
+			remains = stream->stream_size - stream->stream_index - index;
+
+		/* check we don't get out side the content available */
+		if (remains < 1) {
+
+			/* check for zero stream ended support */
+			if (stream->zero) {
+				/* flag that chunk matched will be -2,
+				 * and no terminator is consumed */
+				stream->chunk_matched = -2;
+				length                = 0;
+				goto matched_return_result;
 			} /* end if */
-		}
-
-		/* check we don't get out side the memory */
-		if (stream->type == STREAM_MEM) {
-			if (remains < 0) {
-
-				/* check for zero stream ended
-				 * support */
-				if (stream->zero) {
-					/* flag that chunk matched
-					 * will be -2 */
-					stream->chunk_matched = -2;
-					goto matched_return_result;
-				}
 
-				/* seems there is no more room to
-				 * read */
-				return NULL;
-			} /* end if */
+			/* seems there is no more room to read */
+			return NULL;
 		} /* end if */
 
-		
 		/* compare chunks received for each index increased
 		 * one step */
-	init_get_until:
 		_index   = stream->stream_index + index;
 		matched  = axl_false;
 		iterator = 0;
@@ -1499,22 +1456,6 @@ char * __axl_stream_get_untilv_wide (axlStream * stream, va_list args)
 
 		/* check that the function have found a chunk */
 		if (matched) {
-			/* check for matching a more specific
-			 * terminal than a general */
-			if ((length < max_length) && 
-			    ((_index + length) == stream->stream_size)) {
-				__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "detected possible false positive");
-				
-				/* do a prebuffer operation,
-				 * and if success, try to
-				 * check again all chunks at
-				 * the current index */
-				if (axl_stream_prebuffer (stream))
-					goto init_get_until;
-			}
-
-			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "matched_chunk=%d", iterator);
-			
 			/* report which is the chunk being
 			 * matched by the expresion */
 			stream->chunk_matched = iterator;
-- 
2.43.0


From beb9508f2aa5126071d6ab03f2b923b507035cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:20 +0000
Subject: [PATCH 60/76] fix: stream moved to an invalid position after an
 unknown entity reference read from a file

---
 src/axl_dtd.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index e91b426..64c58e7 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -1396,10 +1396,8 @@ axl_bool axl_dtd_check_entity_ref_and_expand (axlDtdEntityResolver   resolver,
 {
 	char       * string_aux;
 	char       * new_value;
-	int          index;
 
 	/* check if we have an entity reference using the provided prefix */
-	index = axl_stream_get_index (stream);
 	if (! (axl_stream_inspect (stream, prefix, 1) > 0))
 		return axl_true;
 
@@ -1416,7 +1414,12 @@ axl_bool axl_dtd_check_entity_ref_and_expand (axlDtdEntityResolver   resolver,
 	/* resolve the reference */
 	new_value = (char *) resolver (string_aux, data);
 	if (new_value == NULL) {
-		axl_stream_move (stream, index);
+		/* place back the reference (do not move the stream to
+		 * the initial index, it isn't valid if more content
+		 * was read) */
+		new_value = axl_strdup_printf ("%s%s;", prefix, string_aux);
+		axl_stream_push (stream, new_value, strlen (new_value));
+		axl_free (new_value);
 		return axl_true;
 	} /* end if */
 
-- 
2.43.0


From 0920c24ea6b9adde3ffdc650322a8980044cd8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:16 +0000
Subject: [PATCH 61/76] fix: encoding detection failed without error on short
 documents, and failed on documents read in small pieces

---
 babel/axl_babel.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/babel/axl_babel.c b/babel/axl_babel.c
index e3e3e16..f4488ce 100644
--- a/babel/axl_babel.c
+++ b/babel/axl_babel.c
@@ -128,8 +128,9 @@ axl_bool axl_babel_detect_codification (axlStream        * stream,
 {
 	/* check basic case where the stream have no content to
 	 * parse */
-	if (axl_stream_get_size (stream) < 4) {
+	if (axl_stream_fall_outside (stream, 4)) {
 		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "unable to detect codification, stream received doesn't have enough content to parse");
+		axl_error_new (-1, "unable to detect codification, document doesn't have enough content", stream, error);
 		return axl_false;
 	} /* end if */
 
-- 
2.43.0


From 5481be95bbb553b9ffa1b8189328e1664515474e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:16 +0000
Subject: [PATCH 62/76] fix: encoding detected by its mark was not used when
 the document declares none

---
 babel/axl_babel.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babel/axl_babel.c b/babel/axl_babel.c
index f4488ce..17d1551 100644
--- a/babel/axl_babel.c
+++ b/babel/axl_babel.c
@@ -364,7 +364,7 @@ axl_bool axl_babel_configure_encoding (axlStream  * stream,
 	/* check case were a encoding was detected (the entity content
 	 * is encoded as detected due to marks or other means) */
 	if (detected && encoding == NULL)
-		detected = encoding;
+		encoding = detected;
 
 	/* check encoding found (either detected or defined) */
 	if (axl_cmp (encoding, "iso88591")) {
-- 
2.43.0


From 94fe4e31055f7cb2e0c852337ba2446e69ef1acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:16 +0000
Subject: [PATCH 63/76] fix: content refused because it is not valid utf-8
 reported no error

---
 babel/axl_babel.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/babel/axl_babel.c b/babel/axl_babel.c
index 17d1551..007b6d5 100644
--- a/babel/axl_babel.c
+++ b/babel/axl_babel.c
@@ -327,7 +327,12 @@ int axl_babel_utf8_check (const char  * source,
 			  axlError   ** error)
 {
 	__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "received notification to check content size=%d to have valid utf-8: %s", source_size, source);
-	return axl_babel_check_utf8_content (source, source_size, NULL) ? 1 : 0;
+	if (axl_babel_check_utf8_content (source, source_size, NULL))
+		return 1;
+
+	/* report why the content is refused */
+	axl_error_new (-1, "found content that is not valid utf-8", NULL, error);
+	return 0;
 }
 
 
-- 
2.43.0


From 250ec4a1c9ce8bf5489d236e6528b946f9805527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:16 +0000
Subject: [PATCH 64/76] fix: documents parsed from memory lost their end when
 decoded into utf-8

---
 src/axl_stream.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/axl_stream.c b/src/axl_stream.c
index da5cb10..3222230 100644
--- a/src/axl_stream.c
+++ b/src/axl_stream.c
@@ -3652,6 +3652,8 @@ axl_bool        axl_stream_setup_decode        (axlStream         * stream,
 						axlPointer          user_data,
 						axlError         ** error)
 {
+	int decoded;
+
 	axl_return_val_if_fail (stream, axl_false);
 
 	/* do not check if the decode_f function is NULL (it's a valid
@@ -3693,6 +3695,31 @@ axl_bool        axl_stream_setup_decode        (axlStream         * stream,
 		
 		/* add to the stream size the current index */
 		stream->stream_size += stream->stream_index;
+
+		/* memory streams are not read later: in the case the
+		 * content decoded is bigger than the source, expand
+		 * the buffer until all the content is decoded */
+		while (stream->type == STREAM_MEM && stream->decode_temp_last > 0) {
+			stream->buffer_size += stream->buffer_size;
+			stream->stream       = realloc (stream->stream, stream->buffer_size + 1);
+
+			if (! axl_stream_decode (stream,
+						 /* output */
+						 (stream->stream + stream->stream_size),
+						 /* output max size */
+						 stream->buffer_size - stream->stream_size,
+						 /* output decoded */
+						 &decoded,
+						 /* do not define op result */
+						 NULL,
+						 error))
+				return axl_false;
+			stream->stream_size += decoded;
+		} /* end while */
+
+		/* terminate content in memory */
+		if (stream->type == STREAM_MEM)
+			stream->stream[stream->stream_size] = 0;
 		
 	} /* end if */
 
-- 
2.43.0


From 584e7588b34f1b5d3b168cb6206812c375ac9e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:16 +0000
Subject: [PATCH 65/76] fix: reading a file being decoded reported more content
 at its end, and lost content pending to be decoded

---
 src/axl_stream.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/axl_stream.c b/src/axl_stream.c
index 3222230..2939d07 100644
--- a/src/axl_stream.c
+++ b/src/axl_stream.c
@@ -293,13 +293,14 @@ axl_bool axl_stream_prebuffer (axlStream * stream)
 {
 	int  bytes_read = 0;
 	int  op_result  = 0;
+	int  previous_size;
 
 	/* check some environment conditions */
 	axl_return_val_if_fail (stream, axl_false);
 
 	/* no prebuffering is the stream type is not a file descriptor
 	 * source and if the socket is closed */
-	if (stream->type != STREAM_FD || stream->fd == -1) {
+	if (stream->type != STREAM_FD || (stream->fd == -1 && stream->decode_temp_last == 0)) {
 		return axl_false;
 	} /* end if */
 
@@ -377,6 +378,7 @@ axl_bool axl_stream_prebuffer (axlStream * stream)
 
 	/* check if we have decode functions defined */
 	if (stream->decode_f) {
+		previous_size = stream->stream_size;
 		while (1) {
 			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, 
 				   "check temporal decode buffer for pending content: decode_temp_index=%d, decode_temp_last=%d, decode_temp_size=%d",
@@ -422,7 +424,7 @@ axl_bool axl_stream_prebuffer (axlStream * stream)
 				break;
 
 			/* check if there are still space to decode at the stream */
-			if ((stream->buffer_size - stream->stream_size) > 0) {
+			if (stream->fd > 0 && (stream->buffer_size - stream->stream_size) > 0) {
 				/* read content inside the decde temp buffer */
 				bytes_read = __axl_stream_read (stream, stream->decode_temp + stream->decode_temp_last,
 								stream->decode_temp_size - stream->decode_temp_last);
@@ -440,11 +442,12 @@ axl_bool axl_stream_prebuffer (axlStream * stream)
 				break;
 			} /* end if */
 
-			/* check to terminate */
+			/* check to terminate: there was more content
+			 * only if something was decoded */
 			if (stream->decode_temp_index == 0 && 
 			    stream->decode_temp_last == 0 && 
 			    stream->fd == -1) 
-				return axl_true;
+				return stream->stream_size > previous_size;
 			
 		} /* end while */
 
-- 
2.43.0


From 6b173d614ac2eaee372a4c337617cafa44216722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:01 +0000
Subject: [PATCH 66/76] fix: valid utf-8 files were refused when a character
 was split between two reads

---
 src/axl_stream.c | 60 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 60 insertions(+)

diff --git a/src/axl_stream.c b/src/axl_stream.c
index 2939d07..a1b6f5c 100644
--- a/src/axl_stream.c
+++ b/src/axl_stream.c
@@ -259,6 +259,54 @@ int __axl_stream_read (axlStream * stream, char * buffer, int size)
 	return bytes_read;
 }
 
+/** 
+ * @internal Reads the bytes missing to complete the last utf-8
+ * character available at the stream, so the content can be checked
+ * no matter where the last read operation has ended.
+ */
+void __axl_stream_complete_character (axlStream * stream)
+{
+	int           back;
+	int           missing;
+	int           bytes_read;
+	unsigned char value;
+
+	while (stream->type == STREAM_FD && stream->fd > 0) {
+		/* find the octect starting the last character and the
+		 * count of octects it still needs */
+		missing = 0;
+		for (back = 1; back <= 3 && back <= stream->stream_size; back++) {
+			value = stream->stream[stream->stream_size - back];
+			if (value >= 128 && value <= 191)
+				continue;
+			if (value >= 240 && value <= 247)
+				missing = 4 - back;
+			else if (value >= 224 && value <= 239)
+				missing = 3 - back;
+			else if (value >= 192 && value <= 223)
+				missing = 2 - back;
+			break;
+		} /* end for */
+
+		if (missing <= 0)
+			return;
+
+		/* check to expand the buffer */
+		if ((stream->stream_size + missing) > stream->buffer_size) {
+			stream->buffer_size += stream->buffer_size;
+			stream->stream       = realloc (stream->stream, stream->buffer_size + 1);
+			stream->temp         = realloc (stream->temp,   stream->buffer_size + 1);
+		} /* end if */
+
+		bytes_read = __axl_stream_read (stream, stream->stream + stream->stream_size, missing);
+		if (bytes_read <= 0)
+			return;
+		stream->stream_size += bytes_read;
+	} /* end while */
+
+	return;
+}
+
 /** 
  * @internal Allows to check if the stream failed to read its source,
  * that is, content provided by the stream isn't complete.
@@ -464,6 +512,14 @@ axl_bool axl_stream_prebuffer (axlStream * stream)
 
 		/* call to check */
 		if (stream->check_f && bytes_read > 0) {
+			/* avoid checking content with its last
+			 * character incomplete */
+			previous_size        = stream->stream_size;
+			stream->stream_size += bytes_read;
+			__axl_stream_complete_character (stream);
+			bytes_read           = stream->stream_size - previous_size;
+			stream->stream_size  = previous_size;
+
 			/* call to check */
 			if (! axl_stream_content_check (stream, stream->stream + stream->stream_size, bytes_read, NULL)) {
 				__axl_log (LOG_DOMAIN, AXL_LEVEL_CRITICAL, "failed to prebuffer, content check function have failed");
@@ -3768,6 +3824,10 @@ axl_bool    axl_stream_setup_check         (axlStream                * stream,
 		stream->source_encoding = axl_strdup (source_encoding);
 
 	if (stream->check_f) {
+		/* avoid checking content with its last character
+		 * incomplete */
+		__axl_stream_complete_character (stream);
+
 		/* call to check */
 		if (! axl_stream_content_check (stream, stream->stream + stream->stream_index, stream->stream_size - stream->stream_index, error)) {
 			__axl_log (LOG_DOMAIN, AXL_LEVEL_CRITICAL, "content check function have failed, looks like there is a problem with content");
-- 
2.43.0


From e37235678b0e1f6a9beb30676b0470eeab6ec677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:38 +0000
Subject: [PATCH 67/76] fix: bytes not defined by the declared encoding
 silently cut the text

---
 babel/axl_babel.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/babel/axl_babel.c b/babel/axl_babel.c
index 007b6d5..d2d6df6 100644
--- a/babel/axl_babel.c
+++ b/babel/axl_babel.c
@@ -276,6 +276,12 @@ int axl_babel_single_to_utf8 (const char * source, int source_size,
 
 		/* __axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "translating value=%c (%d)", source[iterator], value); */
 
+		/* check the value is defined by the encoding */
+		if (value != 0 && table[value].buffer[0] == 0) {
+			__axl_log (LOG_DOMAIN, AXL_LEVEL_CRITICAL, "found value %d, not defined by the encoding %s", value, source_encoding);
+			return 0;
+		} /* end if */
+
 		/* check if we are able to place all the encoded item */
 		if ((iterator2 + table[value].size) > output_size) {
 			/* __axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "unable to completely decode following sequence (%d size, on remain: %d)",
-- 
2.43.0


From cf708d0baf6c203acff6ba0707d1c3fe1e7209aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:44 +0000
Subject: [PATCH 68/76] fix: files opened as descriptor 0 were left open, or
 never read to its end when decoding

---
 src/axl_stream.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/axl_stream.c b/src/axl_stream.c
index a1b6f5c..e186a45 100644
--- a/src/axl_stream.c
+++ b/src/axl_stream.c
@@ -271,7 +271,7 @@ void __axl_stream_complete_character (axlStream * stream)
 	int           bytes_read;
 	unsigned char value;
 
-	while (stream->type == STREAM_FD && stream->fd > 0) {
+	while (stream->type == STREAM_FD && stream->fd >= 0) {
 		/* find the octect starting the last character and the
 		 * count of octects it still needs */
 		missing = 0;
@@ -472,7 +472,7 @@ axl_bool axl_stream_prebuffer (axlStream * stream)
 				break;
 
 			/* check if there are still space to decode at the stream */
-			if (stream->fd > 0 && (stream->buffer_size - stream->stream_size) > 0) {
+			if (stream->fd >= 0 && (stream->buffer_size - stream->stream_size) > 0) {
 				/* read content inside the decde temp buffer */
 				bytes_read = __axl_stream_read (stream, stream->decode_temp + stream->decode_temp_last,
 								stream->decode_temp_size - stream->decode_temp_last);
@@ -480,7 +480,7 @@ axl_bool axl_stream_prebuffer (axlStream * stream)
 				/* update the amount of data available tat the decode temp */
 				if (bytes_read > 0)
 					stream->decode_temp_last += bytes_read;
-				else if (stream->fd > 0) {
+				else if (stream->fd >= 0) {
 					__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "end of file reached");
 					close (stream->fd);
 					stream->fd = -1;
@@ -671,6 +671,7 @@ axlStream * axl_stream_new (const char * stream_source, int stream_size,
 		stream               = axl_new (axlStream, 1);
 		stream->buffer_size  = stream_size;
 		stream->type         = STREAM_MEM;
+		stream->fd           = -1;
 
 		/* copy source */
 		stream->stream       = axl_new (char, stream_size + 1);
@@ -1934,7 +1935,7 @@ void axl_stream_free (axlStream * stream)
 	if (stream->last_get_following != NULL)
 		axl_free (stream->last_get_following);
 
-	if (stream->fd > 0) {
+	if (stream->fd >= 0) {
 		/* close file descriptor if defined */
 		close (stream->fd);
 	}
-- 
2.43.0


From 0daaccb3ecbe04ac0faa52ef4d5b44b70ee33687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:30 +0000
Subject: [PATCH 69/76] fix: axl-knife read past the end of short options

---
 knife/exarg.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/knife/exarg.c b/knife/exarg.c
index 9b3bfe6..2d95e1b 100644
--- a/knife/exarg.c
+++ b/knife/exarg.c
@@ -734,7 +734,7 @@ int exarg_is_argument (char * argument)
 	int iterator = 1;
 
 	/* support standard unix format definition */
-	if (CHECK_PARSE_MODE (PARSE_MODE_UNIX) && !memcmp (argument, "--", 2)) {
+	if (CHECK_PARSE_MODE (PARSE_MODE_UNIX) && !strncmp (argument, "--", 2)) {
 
 		/* update parse mode */
 		UPDATE_PARSE_MODE (PARSE_MODE_UNIX);
@@ -777,7 +777,7 @@ char * exarg_get_argument (char * argument)
 {
 	/* support getting the argument value for unix standard
 	 * argument */
-	if (!memcmp (argument, "--", 2))
+	if (!strncmp (argument, "--", 2))
 		return &(argument[2]);
 	
 	/* support getting the argument value for short def */
@@ -793,7 +793,7 @@ char * exarg_get_argument (char * argument)
 
 int exarg_check_help_argument (char * argument)
 {
-	if (!memcmp (argument, "help", 4) || !memcmp (argument, "?", 1))
+	if (!strncmp (argument, "help", 4) || !strncmp (argument, "?", 1))
 		return 1;
 	return 0;
 }
@@ -1199,7 +1199,7 @@ void       exarg_parse         (int         argc,
 		}
 		
 		/* check for usage argument */
-		if (!memcmp (argument, "usage", 5)) {
+		if (!strncmp (argument, "usage", 5)) {
 			exarg_show_usage (1);
 			exarg_end ();
 			exit (0);
@@ -1413,7 +1413,7 @@ void __exarg_check_short_arg (epointer key, epointer value, epointer user_data)
 	char           * arg_to_check = (char *) user_data;
 
 	if (node->arg_short_name != NULL) {
-		if (!memcmp (node->arg_short_name, arg_to_check, strlen (arg_to_check))) {
+		if (!strcmp (node->arg_short_name, arg_to_check)) {
 			exarg_msg ("error: found that short arg installed is already found: %s\n", arg_to_check);
 		} /* end if */
 	} /* end if */
-- 
2.43.0


From 181a4281f2e2d1123f61c964ebfe73f875bf12f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:30 +0000
Subject: [PATCH 70/76] fix: axl-knife carried on after reporting options that
 exclude each other

---
 knife/exarg.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/knife/exarg.c b/knife/exarg.c
index 2d95e1b..94c4a41 100644
--- a/knife/exarg.c
+++ b/knife/exarg.c
@@ -1117,9 +1117,8 @@ void __exarg_parse_check_depends (void)
 			
 			/* check that the dependency is defined */
 			if (dep->node->is_defined) {
-				printf ("You can't define argument (--%s) if used (--%s). Try %s --help.\n", 
-					node->arg_name, dep->node->arg_name, exarg_exec_name);
-				fflush (stdout);
+				exarg_msg ("You can't define argument (--%s) if used (--%s). Try %s --help.\n", 
+					   node->arg_name, dep->node->arg_name, exarg_exec_name);
 				return;
 			} /* end if */
 
-- 
2.43.0


From 03d83b44100d7bf1282a6c4f2f47fa3846392546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:49 +0000
Subject: [PATCH 71/76] fix: axl-knife --dtd-to-c changed double quotes and
 broke the string with back slashes

---
 knife/axl-knife.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/knife/axl-knife.c b/knife/axl-knife.c
index ee64115..a34e81d 100644
--- a/knife/axl-knife.c
+++ b/knife/axl-knife.c
@@ -556,7 +556,6 @@ axl_bool axl_knife_dtd_to_c (void)
 	int          max;
 	int          chunk_matched;
 	char       * ref;
-	char       * format;
 	int          iterator;
 	FILE       * fstream = stdout;
 
@@ -601,9 +600,6 @@ axl_bool axl_knife_dtd_to_c (void)
 	axl_stream_free (stream);
 	stream = axl_stream_new (NULL, -1, exarg_get_string ("input"), -1, &err);
 	
-	/* build format for each line */
-	format = axl_strdup_printf ("%%-%ds  \\\n", line_length + 1);
-
 	file   = axl_knife_file_name (exarg_get_string ("input"));
 
 	
@@ -625,18 +621,23 @@ axl_bool axl_knife_dtd_to_c (void)
 			iterator = 0;
 			while (iterator < strlen (ref)) {
 				/* update blank */
-				if (ref[iterator] == '\t')
+				if (ref[iterator] == '\t' || ref[iterator] == '\r')
 					ref[iterator] = ' ';
-				if (ref[iterator] == '\"')
-					ref[iterator] = '\'';
+
+				/* escape values that are special
+				 * inside a C string */
+				if (ref[iterator] == '\"' || ref[iterator] == '\\')
+					fputc ('\\', fstream);
+				fputc (ref[iterator], fstream);
 
 				/* next iterator */
 				iterator++;
 			} /* end while */
 		} /* end if */
 
-		/* get lenght and update */
-		fprintf (fstream, format, ref);
+		/* fill the line until the maximum length */
+		max = ref ? strlen (ref) : 0;
+		fprintf (fstream, "%*s  \\\n", line_length + 1 > max ? line_length + 1 - max : 1, "");
 
 	} while (chunk_matched != -2);
 
@@ -648,7 +649,6 @@ axl_bool axl_knife_dtd_to_c (void)
 	
 	axl_stream_free (stream);
 	axl_free (file);
-	axl_free (format);
 
 	/* check output argument */
 	if (exarg_is_defined ("output"))
-- 
2.43.0


From b7ae9c0063a08f3699d661731cc10584bc7451e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:49 +0000
Subject: [PATCH 72/76] fix: axl-knife --htmlize let references found in the
 content be translated by the browser

---
 knife/axl-knife.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/knife/axl-knife.c b/knife/axl-knife.c
index a34e81d..c42c22c 100644
--- a/knife/axl-knife.c
+++ b/knife/axl-knife.c
@@ -70,6 +70,7 @@ int             axl_knife_pid          = -1;
 char * __translate_content (char * content)
 {
 	content = axl_strdup (content);
+	axl_replace (content, "&", "&amp;");
 	axl_replace (content, "<", "&lt;");
 	axl_replace (content, ">", "&gt;");
 	
-- 
2.43.0


From 61a7185a0cadf9d549b51c898e16f24b79481dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:49 +0000
Subject: [PATCH 73/76] fix: axl-knife --htmlize put attribute values into the
 page as they are

---
 knife/axl-knife.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/knife/axl-knife.c b/knife/axl-knife.c
index c42c22c..da7ab1c 100644
--- a/knife/axl-knife.c
+++ b/knife/axl-knife.c
@@ -343,6 +343,22 @@ void axl_knife_introduce_indentation (FILE * fstream, int level)
 	return;
 }
 
+/** 
+ * @internal Prints the attribute the cursor is pointing to.
+ */
+void axl_knife_htmlize_attr (FILE * fstream, axlAttrCursor * cursor)
+{
+	const char * value = axl_node_attr_cursor_get_value (cursor);
+	const char * quote = strchr (value, '"') ? "'" : "\"";
+	char       * ref   = __translate_content ((char *) value);
+
+	fprintf (fstream, "%s=<span class=\"attrvalue\">%s%s%s</span> ",
+		 axl_node_attr_cursor_get_key (cursor), quote, ref, quote);
+
+	axl_free (ref);
+	return;
+}
+
 axl_bool axl_knife_htmlize_iterator_node (FILE * fstream, axlNode * node, int level)
 {
 	
@@ -368,9 +384,7 @@ axl_bool axl_knife_htmlize_iterator_node (FILE * fstream, axlNode * node, int le
 			while (axl_node_attr_cursor_has_item (cursor)) {
 				
 				/* print values */
-				fprintf (fstream, "%s=<span class=\"attrvalue\">\"%s\"</span> ",
-					 axl_node_attr_cursor_get_key (cursor),
-					 axl_node_attr_cursor_get_value (cursor));
+				axl_knife_htmlize_attr (fstream, cursor);
 				
 				/* get the next cursor */
 				axl_node_attr_cursor_next (cursor);
@@ -379,9 +393,7 @@ axl_bool axl_knife_htmlize_iterator_node (FILE * fstream, axlNode * node, int le
 			while (axl_node_attr_cursor_has_item (cursor)) {
 
 				/* print values */
-				fprintf (fstream, "%s=<span class=\"attrvalue\">\"%s\"</span> ",
-					 axl_node_attr_cursor_get_key (cursor),
-					 axl_node_attr_cursor_get_value (cursor));
+				axl_knife_htmlize_attr (fstream, cursor);
 
 				/* get the next cursor */
 				axl_node_attr_cursor_next (cursor);
-- 
2.43.0


From e918395edf2cd98ddfb27e4ae4588c06cf5682a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:49 +0000
Subject: [PATCH 74/76] fix: axl-knife --htmlize never closed empty nodes
 without attributes

---
 knife/axl-knife.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/knife/axl-knife.c b/knife/axl-knife.c
index da7ab1c..ad701dd 100644
--- a/knife/axl-knife.c
+++ b/knife/axl-knife.c
@@ -434,6 +434,12 @@ axl_bool axl_knife_htmlize_iterator_node (FILE * fstream, axlNode * node, int le
 			fprintf (fstream, ">%s", enter_label);
 		}
 		
+	} else if (axl_item_get_first_child (node) == NULL) {
+		/* nothing inside, close the node */
+		fprintf (fstream, "&lt;<span class=\"node\">%s</span>/>%s",
+			 axl_node_get_name (node),
+			 exarg_is_defined ("htmlize-skip-first-enter-for-content") ? "" : "\n");
+		return axl_true;
 	} else {
 		/* check if the node has childs or only content to avoid placing a \n */
 		/* printf ("Defined? %d\n", exarg_is_defined ("htmlize-skip-first-enter-for-content"));
-- 
2.43.0


From 628c95816dec299d6bb2938a28bb422d2917a395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:00 +0000
Subject: [PATCH 75/76] fix: looking up nodes by name space changed the
 document for a moment

---
 ns/axl_ns_node.c | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/ns/axl_ns_node.c b/ns/axl_ns_node.c
index 56995c4..a8a8b14 100644
--- a/ns/axl_ns_node.c
+++ b/ns/axl_ns_node.c
@@ -92,8 +92,10 @@ axl_bool axl_ns_node_cmp (axlNode    * node,
 		      const char * ns, 
 		      const char * name)
 {
-	int    position;
-	char * _name;
+	int          position;
+	const char * _name;
+	char       * prefix;
+	axl_bool     result;
 
 	axl_return_val_if_fail (node, axl_false);
 	axl_return_val_if_fail (ns, axl_false);
@@ -102,19 +104,18 @@ axl_bool axl_ns_node_cmp (axlNode    * node,
 	/* check the name is namespace prefixed */
 	if (axl_ns_node_is_prefixed (node, &position)) {
 
-		/* namespace bound */
-		_name           = (char*) axl_node_get_name (node);
-		_name[position] = 0;
+		/* namespace bound (use a copy: the node may be
+		 * being read from other threads) */
+		_name           = axl_node_get_name (node);
+		prefix          = axl_stream_strdup_n (_name, position);
+		if (prefix == NULL)
+			return axl_false;
 
 		/* call to check */
-		if (! axl_ns_doc_node_check (node, _name, ns)) {
-			/* restore the value */
-			_name[position] = ':';
+		result          = axl_ns_doc_node_check (node, prefix, ns);
+		axl_free (prefix);
+		if (! result)
 			return axl_false;
-		}
-
-		/* restore the value */
-		_name[position] = ':';
 
 		/* now check the node name (now we know the namespace is checked) */
 		return axl_cmp (name, _name + position + 1);
-- 
2.43.0


From 2f4a4f0f7a8702822b5c7f98c3817b503941e32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:36 +0000
Subject: [PATCH 76/76] fix: axl_node_parse_strings refused everything without
 an error reference

---
 src/axl_node.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/axl_node.c b/src/axl_node.c
index d30bef8..ec3366e 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -630,9 +630,6 @@ axlNode * axl_node_parse_strings      (axlError ** error, ...)
 	char     * stream     = NULL;
 	char     * stream_aux = NULL;
 	
-	/* check incoming data */
-	axl_return_val_if_fail (error, NULL);
-	
 	/* open the stdargs */
 	va_start (args, error);
 	
-- 
2.43.0

