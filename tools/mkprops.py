#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property list)."""
import json, os
P = []
S = 'src/disseminate/'
def p(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[S + f for f in files], mechanism=mech)))

p('C01', 'A build step runs exactly when its inputs or outputs changed',
  "A build step is reported as up to date, and is skipped, only if all its inputs and outputs exist and both the content of its inputs and the content of its outputs are what they were when the step last succeeded with those inputs; otherwise it runs (or is reported as missing an input). "
  "A step that has just succeeded is up to date until something changes, in the same process and in a later one, and a change of a file's timestamp, of the order in which inputs are listed or of volatile PDF metadata alone is not a change.",
  ['histories', 'inputs'], 'every interleaving of editing, deleting, restoring and touching input and output files, building, and restarting the process',
  'The tests check one or two hand-written edits of one file; staleness errors need particular orders of edit, build and restart.',
  ['builders/builder.py', 'builders/deciders/md5decider.py', 'builders/deciders/decider.py', 'builders/copy.py', 'builders/save_temp.py'],
  'content hashes of inputs and outputs stored in a persistent decider database, consulted by the builder status')
p('C02', 'Composite builds: ordering, failure propagation, no false "done"',
  "In a chained build a step never starts before every earlier step has finished, each step consumes the output of the step before it, and the chain reports done only when every step is done and the final output exists. "
  "If a step's input is missing or its command fails, no later step of the chain runs, the whole build is reported missing or fails with an error and never as done; a parallel group imposes no order on its members and is done only when all of them are. A command that prints much output or that is stopped for taking too long is treated like any other command, and a stopped command writes nothing afterwards. A command gets the paths of its input and output as they are, spaces included.",
  ['fault_sequences', 'schedules', 'configurations'], 'every composition of chains and parallel groups, every pattern of failing, missing and up-to-date steps, every completion order of the running steps',
  'Existing tests build two or three fixed pipelines with working tools; failures in the middle and interleaved completions are not reached.',
  ['builders/composite_builders/composite_builder.py', 'builders/composite_builders/sequential_builder.py', 'builders/composite_builders/parallel_builder.py', 'builders/builder.py', 'builders/executor.py'],
  'status state machine of builders and composite builders')
p('C03', 'Interrupted or failed builds recover to the same result',
  "If a build is stopped at any point, a command fails, or an output is truncated, deleted or overwritten afterwards, then building again after the cause is gone ends with exactly the files a build from scratch would give; nothing is taken as up to date because of the interrupted attempt.",
  ['crash_points', 'fault_sequences'], 'a stop after any file operation or between any two steps of a build, in any step of the chain, followed by any number of restarts',
  'Tests never stop a build in the middle nor corrupt its output between runs.',
  ['builders/builder.py', 'builders/deciders/md5decider.py', 'builders/composite_builders/sequential_builder.py', 'builders/executor.py'],
  'the decision record is only stored after a successful command with present output')
p('C04', 'A rebuilt project equals the project built from scratch',
  "After any sequence of edits to the documents, templates and dependency files of a project and rebuilds in one session, every rendered target file and copied dependency of the current documents is identical to what building the same sources from scratch in an empty project gives, and a rebuild without a change runs no step.",
  ['histories', 'inputs'], 'every history of document edits, header edits, dependency and template edits, additions, removals, and rebuilds',
  'Tests build a project once or with one edit; equivalence over histories is a relation between runs.',
  ['builders/environment.py', 'builders/target_builders/target_builder.py', 'builders/target_builders/receivers.py', 'builders/jinja_render.py', 'document/document.py', 'builders/target_builders/html_builder.py'],
  'reload on mtime, decider records including template, dependencies and label contents')
p('C05', 'Incremental reload equals loading the project afresh',
  "After any sequence of edits to the documents of a project, with a reload after each, the document tree (order, ids, titles, header values including those inherited from ancestors) and the set and order of labels are the same as when the same files are loaded in a new session.",
  ['histories', 'inputs'], 'every history of body edits, header edits, additions, removals, reorderings and re-parentings of included documents, with reloads in between',
  'Tests reload after one or two specific edits; staleness depends on which ancestors and siblings changed in which order.',
  ['document/document.py', 'document/document_context.py', 'document/receivers/process_headers.py', 'document/receivers/load.py', 'document/receivers/reset.py', 'document/receivers/process_tags.py', 'label_manager/receivers.py'],
  'modification-time driven reload with inheritance from the parent context')
p('C06', 'Includes give a finite tree with each document once, in order',
  "Whatever the include lists say, including self-includes, repeated entries, mutual includes and the same file under several parents, loading terminates and each included file occurs exactly once in the project; the flattened project order is each document followed by its included documents in the order its header lists them. "
  "Document ids are unique and the id-based and path-based lookups return exactly the documents of the flattened list.",
  ['inputs', 'histories'], 'every include graph over a set of files, cyclic ones included',
  'Tests use acyclic two-level trees only.',
  ['document/document.py', 'document/document_context.py'],
  'recursive subdocument loading with a root-wide dictionary of already held documents')
p('C07', 'A document that fails to load is reported and does not poison the project',
  "A missing, oversized or syntactically wrong document makes loading fail with an error of the program naming the cause; after the file is repaired the next load gives exactly what a fresh load gives, and a failed load is reported again on every attempt until its cause is repaired, never leaving the earlier content reported as current.",
  ['fault_sequences', 'histories'], 'every position of the faulty document in the tree, every fault kind, followed by any sequence of repair and reload',
  'Tests check that an error is raised for a root document and stop there.',
  ['document/document.py', 'document/receivers/process_headers.py', 'document/receivers/load.py', 'document/receivers/reset.py', 'document/receivers/process_tags.py', 'document/exceptions.py'],
  'load errors abort the load; a later load must notice that the document has not been loaded')
p('C08', 'Each document is rendered to exactly its enabled targets, at its own place',
  "The targets a document is built for are exactly those its header (or the nearest ancestor's or default) enables, with 'none' disabling all, normalised to start with a dot and deduplicated; each is written below the target directory of that format with the document's path relative to the project source and the target's extension. "
  "Two different documents or targets never share an output file, and files written by earlier builds for documents or targets that are gone may stay.",
  ['inputs', 'configurations'], 'every header spelling of the target list, inheritance chain and document location',
  'Tests check a handful of fixed target lists and file names.',
  ['document/document_context.py', 'document/document.py', 'builders/utils.py', 'builders/environment.py', 'paths/paths.py'],
  'targets property of the document context, target_filepath and generate_outfilepath')
p('C09', 'Labels are numbered in document order with resets',
  "For every project, labels of each kind are numbered 1, 2, 3, ... in the order in which they appear when the documents are read in project order, restarting from 1 after each label of a kind that is configured in the project's root document to reset them, and independently for each kind. "
  "Numbers are a function of the current documents only, not of the order of edits and loads that led there.",
  ['inputs', 'histories'], 'every arrangement of labels of any kinds over the documents, every reset configuration and every order of (re)registration',
  'Tests number two or three headings; wrong resets need particular kind sequences over several documents.',
  ['label_manager/register_orders.py', 'label_manager/label_manager.py', 'label_manager/types/label.py'],
  'single pass over the ordered labels with per-kind counters and reset sets')
p('C10', 'Label registry: unique, owned by documents, purged with them',
  "A label id can be used once per document, a second use in the same document is reported as an error, and the same id in different documents gives distinct labels: a plain id denotes the first one in document order and a document-qualified id the one of that document. Lookups by ids and by kind return exactly the registered labels that match, in document order, and an unknown id is an error. "
  "Reloading or removing a document replaces or removes exactly its own labels.",
  ['histories', 'inputs'], 'every sequence of adding, looking up, resetting and registering labels over several documents',
  'Tests use one or two documents and short sequences.',
  ['label_manager/label_manager.py', 'label_manager/receivers.py', 'label_manager/types/label.py'],
  'ordered dictionary keyed by document id and label id')
p('C11', 'Heading labels know their enclosing headings',
  "Every heading or other content label is associated with the last heading of each level that precedes it in project order and is not followed by a heading of a higher level, and with no other; a heading is itself the heading of its own level. "
  "A chapter therefore continues over the following documents until the next chapter, and a heading of some level ends the association with all lower-level headings before it, whatever edits and reloads came before.",
  ['inputs'], 'every sequence of heading levels and captions over several documents',
  'Tests check one nested sequence.',
  ['label_manager/register_content_labels.py', 'label_manager/types/content_label.py', 'label_manager/types/document_label.py'],
  'a pass over ordered labels keeping the current heading of each level')
p('C12', 'Previous/next navigation is a chain over the documents of a target',
  "For each target, the 'next' link of a document rendered to that target is the first heading label of the next document in project order that is rendered to it, and 'previous' is the same for the document before; a link is absent at the ends and where the neighbour has no heading. "
  "This holds after every reload, whichever documents are added, removed, reordered or have their targets changed.",
  ['histories', 'configurations'], 'every project tree, assignment of targets to documents and history of edits',
  'Tests use documents that all have the same targets.',
  ['tags/navigation.py'],
  'navigation labels recomputed after the document tree is updated')
p('C13', 'A table of contents lists exactly the selected headings, in order and nested',
  "A table of contents lists each label of the requested kind (headings or documents) and scope exactly once, in project order, nested by heading level, with links that point at the document and anchor of that label, and nothing else.",
  ['inputs', 'configurations'], 'every sequence of headings over the documents of a project, every table-of-contents selection and target',
  'Tests use fixed templates with regular nesting; irregular level jumps are not covered.',
  ['tags/toc.py', 'tags/utils.py', 'formats/xhtml.py'],
  'labels filtered by kind and grouped into a nested list')
p('C14', 'Cross references resolve to the referenced label wherever it is',
  "A reference to a label id renders, in every link-bearing target, as a link whose path is the target file of the document owning the label (nothing if the same document) and whose anchor is the label's id, with the label's current number and title in the text. A reference to a document that is not rendered to the target gives the text without a link; a reference to an unknown label is an error, not a dead link.",
  ['inputs', 'histories'], 'every placement of references and labels over documents in any directories, and every history that moves, renames or renumbers labels',
  'Tests reference one label from one neighbouring document.',
  ['tags/ref.py', 'tags/label.py', 'tags/headings.py', 'label_manager/label_manager.py', 'paths/paths.py'],
  'label lookup, target path and relative url computation at render time')
p('C15', 'Header values stay within their document and its descendants',
  "A header value set in a document is visible in that document and the documents it includes (unless they override it) and never in its parent, siblings, the project defaults or another project; values meant for one document only are not inherited. "
  "Reloading a document gives its context as if it were loaded for the first time.",
  ['inputs', 'histories'], 'every assignment of scalar, list and nested values to the documents of a tree, and every order of loads and reloads',
  'Tests check one parent and one child with flat values; aliasing of nested values and reload order are not reached.',
  ['context/context.py', 'document/document_context.py', 'document/receivers/process_headers.py'],
  'copy-on-inherit from the parent context and reset excluding protected entries')
p('C16', 'Header values are merged by type and never change the type of a setting',
  "When a header or template value meets an existing setting, a number, boolean or text replaces it in the setting's own type and an unconvertible value leaves the setting unchanged; new list entries come before the existing ones, sets are united, nested mappings are merged entry by entry, and a matched update never alters its source.",
  ['inputs'], 'every pair of existing setting and new value, of every type and nesting',
  'Tests list about ten pairs.',
  ['context/context.py', 'context/utils.py', 'utils/string.py', 'utils/list.py', 'utils/types.py'],
  'match_update and its conversions')
p('C17', 'The header is separated from the body without loss',
  "A document's header is exactly the block between the two leading '---' lines; its entries become settings with their nested indentation and multi-line values preserved, and the body is exactly the remaining text. A text without a header block is all body.",
  ['inputs'], 'every text, with or without header-like lines anywhere',
  'Tests cover a few layouts.',
  ['context/utils.py', 'context/context.py', 'utils/string.py', 'document/receivers/process_headers.py'],
  'header regular expression and indentation-based header parser')
p('C18', 'Tags are parsed into a tree that loses and invents no text',
  "Parsing body text yields a tree in which every balanced '@name[attributes]{content}' is one tag with its own content and attributes, nested in the enclosing one, and all other text appears unchanged, apart from typographic dashes and quotes, and in the original order; verbatim tags keep their content unparsed. "
  "An unclosed tag or too deep nesting raises an error, and parsing always terminates.",
  ['inputs'], 'every text over the markup alphabet, including stray braces, at-signs, brackets and deep nesting',
  'Tests cover a few dozen strings.',
  ['tags/utils.py', 'tags/tag.py', 'tags/text.py', 'tags/code.py', 'utils/string.py'],
  'brace-matching recursive tag processor')
p('C19', 'Macros expand everywhere, completely, and only when defined',
  "Each occurrence of a defined macro in the body is replaced by its value, including macros used in macro values and inside other tags, innermost definitions taking precedence over inherited ones; undefined names, longer names that merely start with a macro's name, and verbatim text are left unchanged, and expansion always terminates, self-referring definitions included.",
  ['inputs'], 'every set of macro definitions, cyclic ones included, and every text using them',
  'Tests use a few non-recursive macros.',
  ['tags/utils.py', 'tags/receivers/macros.py', 'context/context.py'],
  'iterated regular-expression replacement over the content tree')
p('C20', 'Paragraphs partition the body without losing or reordering text',
  "Paragraph processing wraps each run of inline content between blank lines in exactly one paragraph, never wraps block-level tags, never nests paragraphs, and concatenating the result gives the original content up to the white space at paragraph borders (content that is a single tag alone stays as it is).",
  ['inputs'], 'every sequence of text pieces, inline tags, block tags and blank lines, nested or not',
  'Tests cover about fifteen fixed lists.',
  ['tags/receivers/paragraphs.py', 'tags/utils.py', 'tags/text.py'],
  'split at blank lines, regroup, wrap')
p('C21', 'Attributes parse completely and target-specific values win only in their target',
  "Every attribute written in a tag is available under its name with its exact value, positional entries included; when rendering a target, an entry marked for that target overrides the general entry, entries for other targets are invisible, and entries are never lost, duplicated or leaked between targets.",
  ['inputs', 'configurations'], 'every attribute list, quoting style, target marking and query',
  'Tests use a few lists with one target-specific entry.',
  ['attributes/attributes.py', 'formats/tex.py', 'formats/xhtml.py'],
  'ordered attribute dictionary with target suffixes and filter/find operations')
p('C22', 'Event handlers run in order, once each, and only while alive and enabled',
  "Emitting an event calls each connected handler exactly once, in increasing order number, with the given arguments, and yields their results in that order; handlers that were cleared or whose owner is gone are not called, and two live handlers cannot take the same place. "
  "Tag-level switches disable exactly the named processing stage for that tag.",
  ['histories', 'configurations'], 'every sequence of connecting, disconnecting, dropping and emitting',
  'Tests use two or three handlers.',
  ['signals/signals.py', 'tags/signals.py'],
  'ordered dictionary of weakly referenced receivers')
p('C23', 'Output paths are contained, distinct and linked by correct URLs',
  "Every generated output path lies inside the project's target or cache directory for its target, is a function of the source path and options only, and different sources of a project give different outputs; files above the project root are no exception, and nothing is written elsewhere. "
  "A URL in a rendered page, resolved from the place of the page (or the target root), is the output of the document or file referred to, whatever characters the names have.",
  ['inputs', 'configurations'], 'every source path (relative, absolute, nested, dotted), target, media, extension and option combination',
  'Tests check a few literal paths.',
  ['builders/utils.py', 'paths/paths.py', 'paths/utils.py', 'builders/environment.py'],
  'path composition from target root, target, subpath, append and extension')
p('C24', 'Generated HTML and LaTeX only use known commands with their required arguments',
  "Formatting produces only commands, environments and elements of the known set with only attributes allowed for them, from the entries unmarked or marked for the target rendered; a command, environment or element missing a required argument, and an unknown command or environment, is refused with an error; an unknown element is rendered as a neutral one of that class rather than dropped; contents come out once, in order, in HTML escaped exactly once and in LaTeX as they are, verbatim text between characters it does not hold. Simple tags (emphasis, sub- and superscripts, symbols, verbatim text, boxes, figures with panels, headings) come out as their elements and commands in every target, own classes added to those given, and a width in percent selects the smallest of the fixed widths that holds it.",
  ['inputs'], 'every tag name, attribute list and content',
  'Tests format a few tags.',
  ['formats/tex.py', 'formats/xhtml.py', 'settings.py', 'tags/tag.py', 'tags/text.py', 'tags/utils.py', 'tags/figs.py', 'tags/featurebox.py'],
  'whitelists and required-argument checks in the formatters')
p('C25', 'Rendering one target never changes another',
  "Rendering a document to a target is a pure function of the loaded project: it gives the same result whichever targets were rendered before it, in whatever order and however often, and does not alter the document.",
  ['histories', 'inputs'], 'every document using any tags and every sequence of renderings',
  'Tests render one target per document object.',
  ['tags/tag.py', 'tags/img.py', 'tags/eqs.py', 'tags/code.py', 'tags/caption.py', 'tags/toc.py', 'document/document.py'],
  'format methods that take overriding content and attributes instead of mutating tags')
p('C26', 'Lists keep every item, in order, at its nesting level',
  "A list given by bullets of varying indentation gives a nested list with each item exactly once, in order, each at the level of its indentation relative to the items before it, whatever the jumps in level; ordered and unordered lists nest alike.",
  ['inputs'], 'every sequence of item indentations and texts',
  'Tests use regular nesting.',
  ['tags/list.py', 'formats/xhtml.py'],
  'level parsing, normalisation and nested list construction')
p('C27', 'Dependency checks combine availability as any, all and optional',
  "A requirement group is available exactly if all (or any, or regardless, as declared) of its members are, at every nesting depth, with an undetermined member counting as not available; checking looks up each program exactly as named and never reports an absent program as present.",
  ['configurations'], 'every requirement tree and every set of installed programs',
  'Tests run with the programs of the test machine.',
  ['checkers/types.py', 'checkers/checker.py', 'checkers/python.py', 'checkers/pdf.py', 'software_dependencies.py'],
  'recursive availability of dependency lists')
p('C28', 'Dependencies are found at the right place and collected completely',
  "A file named in a document is taken from the first of the document's search directories that holds it, and is an error if none does (the current directory comes last, if at all); every local file that the links and images of an HTML page or template refer to is found by scanning it, once, and also those of the templates it extends or includes, directly or indirectly, while external, inline and computed references are not files; templates may refer to each other in any way.",
  ['inputs', 'configurations'], 'every arrangement of same-named files over the search directories and every HTML text',
  'Tests use single matches and one HTML sample.',
  ['paths/utils.py', 'builders/scanners/scanner.py', 'builders/scanners/html_scanner.py', 'builders/jinja_render.py', 'builders/target_builders/html_builder.py'],
  'ordered search through context paths and html scanner')
p('C29', 'The preview server shows the current project and nothing outside it',
  "With the server started in the project's folder, a request for a page (html, xhtml, tex or txt output) or for the list of documents, after any edits, is answered from the current sources, exactly as a build from scratch gives it, also when the browser asks whether its copy is still good; the other files of the pages are as current from then on. The list has exactly the documents of the projects, nested as included, with links to all their pages; a source is shown as it is. While the sources cannot be built the answer is an error page, and the pages are back once they can. Unknown paths give a not-found answer (pages of documents that are gone may be left), and no request shows a file outside the served directories.",
  ['histories', 'inputs'], 'every sequence of edits and requests, every request path',
  'Tests request a few pages of one example without edits.',
  ['server/app.py', 'server/handlers', 'server/urls.py'],
  'handlers rebuild on request and map url paths to target files')
p('C30', 'A cloned starter project is complete and never silently overwrites',
  "Initialising a project copies every file of the chosen starter, with identical content and relative location, and only those, and leaves everything else as it is; if the destination is not empty nothing is written unless it is confirmed or questions are turned off, and an unknown starter name, the list of starters and the description of one write nothing; the list names exactly the starters there are, the description exactly the files of the starter.",
  ['inputs', 'configurations'], 'every starter tree, destination state and answer',
  'Tests clone two starters to an empty directory.',
  ['cli/init.py'], 'starter discovery and file copy')
p('C31', 'Tables show every cell of their data',
  "A table shows the data it is given, from a file or directly, cell for cell and in order, in every target: commas (or tabs) separate cells except within quotes, blank lines are not rows, the first record names the columns unless there is no header, columns may have the same name, and a table has as many columns as its longest record.",
  ['inputs'], 'every text of delimited data',
  'Tests use three by three cells without quotes, from the first line on.',
  ['tags/data.py', 'tags/table.py', 'paths/utils.py'],
  'reading of delimited data and formatting of its rows')

p('C32', 'The electronic book of a project is whole, valid and current',
  "After a build, the epub of a project is a readable archive (mimetype first) whose package lists every file in it once with its type and unique identifiers, whose spine has every document once in reading order, whose navigation page lists the headings in order, in which every link and image leads to a file of the book and a place in it, and whose pages show the present text, title, references and images of the sources; a book deleted or damaged is made again, and with nothing to do no file is written.",
  ['inputs', 'histories'], 'every project of included documents and every history of edits of documents, header entries, inclusions and images, of damage to the outputs, and of builds and restarts',
  'Tests build a few books once from given examples and compare them with a stored file list.',
  ['builders/xhtml2epub.py', 'builders/target_builders/epub_builder.py', 'builders/scanners/scanner.py', 'templates/default/xhtml/content.opf', 'builders/jinja_render.py'],
  'collecting the rendered pages and the files they use, package file, navigation page, decision to build again')

p('C33', 'Each project found in a folder is built once, at its place',
  "Building a folder finds each project in it: the bases are the folders with documents and without documents in a folder above, the roots are the documents of a base that no other one includes, and each root's documents are built as part of that project only, with its settings, to the folder above a base called src, to the base otherwise, or to the given output directory; this is refused without writing anything if there is more than one project. A given file is the only root. How the folder is spelled makes no difference.",
  ['inputs', 'histories'], 'every tree of folders and documents that include each other, every spelling of the folder or file, with and without an output directory',
  'Tests look at the projects found in one tree of examples, and build single projects.',
  ['builders/environment.py', 'cli/build.py', 'cli/options.py', 'document/document.py'],
  'search for base folders and root documents, target directory, refusal of an output directory')

p('C34', 'Images are converted to what the targets can show, with their options',
  "Every image, diagram and equation of a document is shown in each target as a format the target can show, made by the shortest sequence of converters from the present file or text with the options written for it and that target (page, scale, bold, colour, environment): an edit of the file, the text or an option shows in the next build of the same or a new session, an image is converted at most once for its options and not again if nothing changed, images with other texts or options do not share a file, and a build that needs a converter that is missing, or a format that no converter makes, is refused instead of leaving the image out.",
  ['inputs', 'histories'], 'every set of images, diagrams and equations with options for some or all targets, shared between documents, every set of converters present, every history of edits and restarts',
  'Tests convert single files with fixed options once, and many of them are skipped without the external converters.',
  ['tags/img.py', 'tags/eqs.py', 'tags/asy.py', 'builders/pdf2svg.py', 'builders/scalesvg.py', 'builders/asy_builders.py', 'builders/imagemagick.py', 'builders/pdfrender.py', 'builders/svgrender.py', 'builders/save_temp.py', 'builders/composite_builders/parallel_builder.py'],
  'choice of the converters and their options, chains of conversion, sharing and repetition of conversions')

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, (x['id'], len(x['title']))
        f.write(json.dumps(x) + '\n')
