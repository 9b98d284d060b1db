#!/usr/bin/env python3
# Writes /verif/properties.jsonl. The text of the properties is kept here.
import json, os
R, D, U, X, P = "readability.go", "domparser.go", "util.go", "regexps.go", "readerable.go"
O = "options.go"
def p(id, title, statement, over, text, why, mech, files=None):
    ms = [{"name": n, "where": w} for n, w in mech]
    fs = files or sorted({w.split(":")[0] for _, w in mech})
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=fs, mechanism=ms, observe_at=["the result of Parse / IsProbablyReaderable, and the node tree that exported methods give"]))
L = [
p("C01", "No page and no option makes the library panic, hang or exit",
  "For every page (including empty, truncated, oddly structured ones, and ones with malformed attribute values, styles, URLs or JSON-LD) and every setting of the options, making a reader, parsing, and asking whether the page is probably readerable return normally. They give either a result or an error, never neither; they never panic, never exit the process, and always terminate.",
  ["inputs", "configurations"], "all pages × all option values",
  "the test pages are real pages that were chosen because they work; the crashes need one odd attribute, type or position",
  [("extraction", R+":Parse"), ("article selection", R+":grabArticle"), ("metadata", R+":getJSONLD"), ("lazy images", R+":fixLazyImages"), ("tables", R+":getRowAndColumnCount"), ("URLs", R+":fixRelativeUris"), ("DOM parser", D+":parse"), ("style values", D+":getStyle"), ("readerable", P+":IsProbablyReaderable")]),
p("C02", "The node tree stays consistent under every sequence of edits",
  "After parsing and after every edit through the node's methods (append, remove, replace, set inner HTML, set text content), the tree is consistent: every child's parent is the node that lists it, first/last child, previous/next sibling and their element-only counterparts agree with the order of the children, and the list of element children is the elements among the children. An edit changes the order and the membership exactly as the DOM standard says and touches nothing else.",
  ["inputs", "histories"], "all trees × all sequences of edits",
  "tests check a few single edits on one tree; a stale link shows only in particular sibling constellations",
  [("append", D+":AppendChild"), ("remove", D+":removeChild"), ("replace", D+":ReplaceChild"), ("inner HTML", D+":SetInnerHTML"), ("text", D+":SetTextContent")]),
p("C03", "Parsing and serialising keep text, attributes and nesting unchanged",
  "For well-formed HTML (every element closed; void elements with or without a slash), parsing yields the elements in their nesting and order, every attribute value and every text with each character reference (numeric, or named lt, gt, amp, quot or apos) decoded exactly once, whatever the characters are. Serialising a tree and parsing the output again yields an equal tree, for every text and attribute value.",
  ["inputs"], "all well-formed documents, all characters in text and attributes",
  "tests compare a few fixed strings; double decoding and wrong escaping need particular characters in particular order",
  [("parser", D+":parse"), ("decode", D+":decodeHTML"), ("encode", D+":encodeHTML"), ("serialise", D+":GetInnerHTML"), ("text", D+":GetTextContent")]),
p("C04", "The article holds no active content",
  "Wherever they stand in a page, scripts, noscript blocks, styles, inputs, buttons, textareas, selects, links to style sheets, embedded objects and frames that are not allowed videos are not in the article, and no link in it has a javascript: target however the scheme is spelled. Text that only looks like markup stays text in the article's HTML.",
  ["inputs", "configurations"], "all positions, nestings, spellings of active content; all thresholds",
  "tests hold the active content of real pages only; the removal depends on position, on nesting and on which extraction attempt wins",
  [("removal", R+":prepArticle"), ("scripts", R+":removeScripts"), ("links", R+":fixRelativeUris"), ("clean", R+":clean"), ("serialise", D+":GetInnerHTML")]),
p("C05", "Presentational attributes and classes are stripped as configured",
  "No element of the article (outside of svg) has an align, background, bgcolor, border, cellpadding, cellspacing, frame, hspace, rules, style, valign or vspace attribute, nor a width or height on table, th, td, hr or pre; other attributes stay. Class attributes keep exactly the classes to preserve (\"page\" and those configured), in order and without an empty attribute, unless classes are to be kept, in which case they are unchanged.",
  ["inputs", "configurations"], "all elements, attribute values and class lists × class options",
  "the test pages use one option setting and only the class and style values that they happen to have",
  [("styles", R+":cleanStyles"), ("classes", R+":cleanClasses"), ("options", O+":ClassesToPreserve")]),
p("C06", "Every URL in the article is the source URL, made absolute",
  "Every href of a link and every src, poster and srcset candidate of media in the article is the URL of the source resolved against the base URL of the page (the page's address, or its first base element) as RFC 3986 says, with escapes, query, fragment and width or density descriptors unchanged. A URL that is already absolute (up to the case of scheme and host and an empty root path), or cannot be resolved, stays as it is, as does a link to a fragment of the page itself when no base element is given.",
  ["inputs"], "all base URLs × all references × all elements with URLs",
  "tests use a few well-behaved URLs; escapes, dot segments, empty parts, and srcset punctuation each take another way",
  [("absolute URLs", R+":fixRelativeUris"), ("base", D+":getBaseURI"), ("resolution", U+":toAbsoluteURI")], [R, D, U]),
p("C07", "Metadata comes from the page's sources in the documented order",
  "Title, byline, excerpt, site name and publishing time come from JSON-LD of an article type with a schema.org context, else from the meta elements, else from the page itself, in the documented order of precedence, with white space trimmed and character references decoded. Where name and headline of the JSON-LD differ, the headline is the title if its words cover more than three quarters of the page's title and those of the name do not, else the name is. JSON-LD that is malformed, of another type or context, or disabled by the option, has no influence on any of them.",
  ["inputs", "configurations"], "all combinations of metadata sources and values",
  "each test page has one combination of sources; precedence is a claim on all pairs",
  [("JSON-LD", R+":getJSONLD"), ("meta", R+":getArticleMetadata"), ("references", R+":unescapeHtmlEntities"), ("result", R+":Parse")]),
p("C08", "The fields of a result agree with one another",
  "In every result, the length is the number of characters of the text content, the text content is the text of the article, the HTML content is what the configured serializer gives for it (by default its inner HTML), and without other sources the excerpt is the article's first paragraph. A custom text conversion is given the HTML content and its output is the text content whose length is reported.",
  ["inputs", "configurations"], "all pages × serializer and text options",
  "tests compare some of the fields with stored values and use no custom functions",
  [("result", R+":Parse"), ("serializer", O+":Serializer"), ("text", O+":Html2Text")]),
p("C09", "Hidden content never reaches the article",
  "An element that is hidden (display: none or visibility: hidden in its style in any letter case, spacing, order and with !important; of several declarations the last or the important one counts; the hidden attribute, aria-hidden=true unless it is a fallback image, or a dialog with aria-modal) does not contribute its text or its elements to the article, wherever it stands below the body. Visible content is not dropped as hidden, and the same holds for every character threshold, that is, for every extraction attempt.",
  ["inputs", "configurations"], "all forms of hiding × positions × thresholds",
  "few test pages hold hidden content, all in the same forms and positions",
  [("visibility", R+":isProbablyVisible"), ("pruning", R+":grabArticle"), ("style", D+":getStyle")]),
p("C10", "The article is an ordered part of the page, nothing invented or repeated",
  "Every word of the article's text is in the page's text, and the words of the article are in the page's order, none more often than in the page. In an article of paragraphs, headings, lists, quotes and inline markup without boilerplate, every paragraph of running text is kept whole.",
  ["inputs"], "all constellations of wrappers, inline markup, line breaks and siblings",
  "tests compare with stored output for whole pages; text is lost in particular constellations of neighbours",
  [("selection", R+":grabArticle"), ("wrapping", R+":grabArticle"), ("br", R+":replaceBrs"), ("cleaning", R+":prepArticle")]),
p("C11", "The element limit is exact",
  "With a positive limit on the number of elements, parsing fails with an error iff the document has more elements than the limit, and otherwise gives the same result as without a limit. A limit of zero or less means no limit.",
  ["inputs", "configurations"], "all documents × all limits",
  "no test uses the option at the boundary",
  [("limit", R+":Parse"), ("option", O+":MaxElemsToParse")]),
p("C12", "The length threshold only decides how hard the extraction tries",
  "Parsing succeeds iff some attempt finds text. Up to four attempts are made, each more lenient than the one before (unlikely elements pass from the second on, negative classes and ids from the third, fishy blocks in the fourth), and for every positive threshold the result is that of the first attempt with at least that many characters, else that of the longest attempt, the first of equally long ones.",
  ["inputs", "configurations"], "all pages × all thresholds",
  "tests use the default threshold, except for one page",
  [("attempts", R+":grabArticle"), ("option", O+":CharThreshold")]),
p("C13", "The readerable test follows its documented score",
  "A page is probably readerable iff the sum, over its visible paragraphs, preformatted blocks, articles and divs with direct line breaks (each counted once) whose class and id are not unlikely, that are no list-item paragraphs, and whose trimmed text is at least the minimal content length, of the square root of the surplus, exceeds the minimal score. Hidden nodes as judged by the configured visibility check do not count.",
  ["inputs", "configurations"], "all pages × minimal length, minimal score, visibility check",
  "tests give a yes/no per page with few settings, so that most errors in the sum are not seen",
  [("score", P+":IsProbablyReaderable"), ("options", O+":MinScore")]),
p("C14", "Results depend on page, URL and options only",
  "Parsing the same page with the same address and options gives the same result each time, whatever other pages were parsed before or with which options. The readerable test and failed parses leave no trace that another parse could observe.",
  ["histories", "inputs", "configurations"], "all sequences of calls",
  "each test makes one call; state that leaks between calls shows only in sequences",
  [("options", O+":defaultOpts"), ("state", R+":New"), ("package variables", X+":package-level regular expressions and lists")], [R, O, X, P, D]),
p("C15", "Allowed videos and data tables are kept",
  "An iframe, embed or object whose address or inner markup matches the allowed-video pattern (by default, or as configured) stays in the article, and others do not; a pattern that was configured replaces the default. A table that the rules call a data table (role, data table marks, summary, caption, header cells, size) is kept with its cells, while a presentation table or one with a nested table is not treated as one.",
  ["inputs", "configurations"], "all embeddings, tables and patterns",
  "test pages hold two kinds of videos and few tables; the decision is by attribute, child and size",
  [("videos", R+":clean"), ("tables", R+":markDataTables"), ("size", R+":getRowAndColumnCount"), ("option", O+":AllowedVideoRegex")]),
p("C16", "Lazy images get their real source, real images keep theirs",
  "An image without a source (or with a tiny base64 placeholder, or of class lazy) whose real address is in another attribute (data-src, data-srcset, or any other but alt that holds the address of a jpg, jpeg, png or webp file), and an image that a noscript fallback of one image follows, has that address in the article, absolute, and its other attributes are kept. An image that already has a real source (not a tiny placeholder) keeps it.",
  ["inputs"], "all placements of addresses, placeholders and fallbacks",
  "test pages hold a few vendors' forms",
  [("lazy", R+":fixLazyImages"), ("noscript", R+":unwrapNoscriptImages"), ("single image", R+":isSingleImage")]),
p("C17", "The title is derived from the page's title by the documented rules",
  "Without metadata the title is the page's title element with white space normalised, without the site name part that a separator sets off or the part before a colon, when enough words are left, as the documented rules say; a heading equal to the title keeps it whole, and a title that is too short or too long is replaced by the page's only top heading. The outcome is never a title with fewer words than the rules require.",
  ["inputs"], "all titles, separators, word counts and headings",
  "each test page has one title",
  [("title", R+":getArticleTitle"), ("similarity", R+":textSimilarity")]),
p("C18", "Byline, language and direction are found and reported",
  "Without an author in the metadata the byline is the trimmed text of the first visible element marked as byline (rel=author, itemprop with author, class or id with byline, author, dateline, writtenby or p-author) of 1 to 99 characters; that element is not in the article. The language is the lang attribute of the html element, and the direction that of the element around the article, else the article's own, else that of the closest ancestor that has one, however many attempts were needed.",
  ["inputs"], "all markings, lengths and positions",
  "each test page has one byline",
  [("byline", R+":checkByline"), ("length", R+":isValidByline"), ("direction", R+":grabArticle"), ("result", R+":Parse")]),
p("C19", "Boilerplate beside the article is left out",
  "Page furniture next to an article with enough text of its own is not in the article: elements with unlikely classes, ids or roles (comments, menus, sidebars, dialogs and the like), footers and asides, share widgets (with less than 500 characters), blocks that are mostly links, and a heading that repeats the title. Elements whose class or id says that they may be the article (such as article, body, content, main) or that hold the article are exempt.",
  ["inputs"], "all kinds and positions of furniture",
  "test pages hold a sample of class names in fixed positions",
  [("unlikely", R+":grabArticle"), ("patterns", X+":unlikely candidates"), ("share", R+":cleanMatchedNodes"), ("conditional", R+":cleanConditionally"), ("duplicate heading", R+":headerDuplicatesTitle")]),
p("C20", "The article's structure is normalised and its content kept",
  "In the article, chains of line breaks are paragraphs (none of them in another), text that stands loose between blocks is, with its inline elements, one paragraph, h1 is h2, font is span, single-cell tables are replaced by their content, containers that hold just one container are flattened, and empty paragraphs are gone; the text and the images within all of these stay, in order. The article is always wrapped in one page container.",
  ["inputs"], "all constellations of breaks, tables, containers",
  "test pages hold a sample of constellations",
  [("br", R+":replaceBrs"), ("tags", R+":setNodeTag"), ("flatten", R+":simplifyNestedElements"), ("prepare", R+":prepArticle")]),
p("C21", "Readers can be used at the same time",
  "Parses, readerable tests and constructions of readers that run at the same time in different goroutines, each with a reader of its own, do not race with one another, even when they are given the same option values. Each gives, in every interleaving, the result that it gives alone.",
  ["schedules", "inputs", "configurations"], "all interleavings of two runs × all pages × all option values, shared or not",
  "the tests run one parse at a time and without the race detector",
  [("options", O+":defaultOpts"), ("constructor", R+":New"), ("extraction", R+":Parse"), ("readerable", P+":IsProbablyReaderable"), ("package state", X+":compiled patterns")]),
p("C25", "The block with the highest score, and what belongs to it, is the article",
  "The article is the block with the highest score: each paragraph (or heading below h1, cell, preformatted block or section) of 25 or more characters gives its parent one point, one per part between commas (of any script) and one per 100 characters up to three (half of it to the grandparent, less to higher ancestors), the kind of the block and a positive or negative class or id add or subtract, and the share of link text lowers it; of equal ones the first counts, and a block around it takes its place when it scores higher or holds three more blocks of three quarters of its score. Of what stands next to it, blocks with a fifth of its score (but at least 10; the same class counts for a fifth), paragraphs of more than 80 characters with few links, and shorter ones without links that end a sentence belong to the article, too.",
  ["inputs", "configurations"], "all arrangements, sizes, classes and link shares of blocks × all numbers of top candidates",
  "test pages have one obvious article each; ties, near misses and limits do not occur",
  [("scores", R+":grabArticle"), ("initial score", R+":initializeNode"), ("class weight", R+":getClassWeight"), ("link share", R+":getLinkDensity"), ("option", O+":NTopCandidates")]),
p("C26", "Blocks that look like no content are left out of the article, others are kept",
  "Within the article a form, fieldset, layout table, unordered list or div goes when its class weight is negative, or when it has less than ten commas and an ominous sign: more than two images per paragraph, more list items than paragraphs plus 100, more inputs than a third of the paragraphs, less than 25 characters with no or more than two images, a share of link text above a fifth (above half with a positive class), or embedded frames that are not allowed videos. It stays otherwise, as does what is in code, in data tables, and lists with one image in each item; headings, figures and lists are treated with more lenience; of the headings only an h1 or h2 of negative class weight goes.",
  ["inputs"], "all counts of elements, characters, commas and links in a block",
  "test pages hold few blocks near the limits",
  [("cleaning", R+":cleanConditionally"), ("shares", R+":getTextDensity"), ("link share", R+":getLinkDensity"), ("exemptions", R+":hasAncestorTag")]),
p("C22", "The command prints the article or fails with a message",
  "The command-line tool prints the article of the page at the given address as text, or as HTML if asked to, and nothing else on standard output. Without an address, when the page cannot be fetched, or when it has no article, it prints a message and exits with status 1.",
  ["inputs", "fault_sequences"], "all command lines and all outcomes of fetching",
  "the tool has no tests",
  [("command", "cmd/readability/readability.go:main")]),
p("C23", "The article of a real page is the one Readability.js finds",
  "For every real-world page, the article, byline, title and other fields equal those that the version of Readability.js named in the documentation finds for it.",
  ["inputs"], "all web pages",
  "the test pages are some hundred of the web's",
  [("extraction", R+":grabArticle"), ("scores", R+":initializeNode"), ("conditional cleaning", R+":cleanConditionally")]),
p("C24", "The work done is bounded by a small polynomial of the page's size",
  "Time and memory of a parse and of a readerable test are bounded by a polynomial of low degree in the size of the page, so that no page of ordinary size stalls the caller.",
  ["inputs"], "all pages",
  "the tests have no time limits",
  [("extraction", R+":grabArticle"), ("sibling search", D+":AppendChild"), ("patterns", X+":compiled patterns")]),
]
for x in L:
    assert len(x["title"]) <= 80, x["id"]
    assert x["statement"].count(". ") <= 2, (x["id"], x["statement"].count(". "))
open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in L))
