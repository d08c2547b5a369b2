T = "property-based testing: "
PROPS = [
 dict(id="C01", title="Every generated presentation is a valid, closed package",
  statement="For any slides and presentation settings the builder accepts, the bytes it returns are a ZIP whose parts are all well-formed XML where they claim to be, uniquely named, declared with the right content type and reachable. Every relationship id used in a part is defined exactly once for that part and leads to a part that exists, or to a well-formed external target. Media, charts, notes, fonts, signatures and links never leave a dangling or clashing reference.",
  over=["inputs","configurations"], qtext="all decks (any text, element mix, layouts, transitions, images, charts, notes, links, ink) and all presentation settings",
  why="Unit tests open a few fixed decks; closure of ids, parts and content types depends on the combination of optional features present on every slide.",
  files=["src/generator/builder.rs","src/generator/package_xml.rs","src/generator/slide_xml/content.rs"],
  mech=[("package writer","src/generator/builder.rs"),("content types and relationships","src/generator/package_xml.rs")],
  technique=T+"generated decks against an independent OPC/XML oracle",
  note="Random structured decks; every produced package is read back by an independent zip/XML/relationship checker."),
 dict(id="C02", title="Generated parts follow the element structure of the schema",
  statement="In every slide, layout, master, chart, theme, notes and presentation part the library writes, each element appears where the PresentationML, DrawingML and chart schemas allow it, in the order they require, with the attributes they require and values of the declared simple types. Shape ids are unique within each part.",
  over=["inputs","configurations"], qtext="all decks and settings the builder accepts",
  why="PowerPoint refuses or repairs a file when one child is out of order; tests look for substrings and never at structure, and order depends on which optional children are present.",
  files=["src/generator/slide_xml","src/generator/shapes_xml.rs","src/generator/charts/xml.rs","src/generator/package_xml.rs"],
  mech=[("slide writer","src/generator/slide_xml/content.rs"),("chart writer","src/generator/charts/xml.rs")],
  technique=T+"generated decks against a hand-written content model of the schemas",
  note="The content model covers the elements the library can emit plus the common remainder of the schemas."),
 dict(id="C03", title="Every slide carries exactly the text it was given, in order",
  statement="For any deck, the n-th slide of the presentation shows the title, bullets, table text, shape text, notes and code given for the n-th slide, in the same order and with every legal character preserved, and nothing else. This holds for any number of slides and for every layout that shows the content.",
  over=["inputs"], qtext="all decks, all Unicode text including XML metacharacters, control characters and long slide counts",
  why="Escaping and ordering defects appear for particular characters, counts and mixes that fixed examples do not contain.",
  files=["src/generator/builder.rs","src/generator/slide_xml","src/generator/notes_xml.rs","src/generator/slide_content/mod.rs"],
  mech=[("text escape","src/core/xml_utils.rs"),("slide text","src/generator/slide_xml/layouts.rs")],
  technique=T+"deck model against text extracted from the package by an independent reader",
  note="Read back through the harness's own package and XML reader; characters XML cannot hold are expected to be removed."),
 dict(id="C04", title="All ways of writing a deck agree, and failed writes are reported",
  statement="The in-memory, streaming-to-writer and lazy writers produce equivalent packages for equivalent input, and joining decks gives the slides of each in order. When the destination fails at any point the writer returns an error instead of claiming success, and it never panics.",
  over=["inputs","fault_sequences","configurations"], qtext="all decks, every writer entry point, every byte offset and kind of destination fault",
  why="Tests use one writer at a time with a destination that never fails; agreement between paths and behaviour at each fault point are universally quantified.",
  files=["src/generator/builder.rs","src/generator/mod.rs","src/api.rs"],
  mech=[("writers","src/generator/builder.rs"),("fluent API","src/api.rs")],
  technique=T+"differential between writers plus injected write and seek faults",
  note="Packages are compared part by part; faults are injected at random operation indexes of write, seek and flush."),
 dict(id="C12", title="Charts show exactly the categories, series and values given",
  statement="Every chart given to a slide is written as one chart of the requested type with its title, categories, series names and numeric values exactly as supplied, in order, at the requested position and size. Each numeric or text cache agrees with its point count and its indexes, and with the cells of the workbook embedded for the chart; values that are no number leave gaps.",
  over=["inputs"], qtext="all chart types, series counts, category counts, values and text",
  why="Tests check for a chart element's presence; the data and its layout differ by chart type and by ragged or empty series.",
  files=["src/generator/charts/xml.rs","src/generator/charts/types.rs","src/generator/charts/builder.rs"],
  mech=[("chart writer","src/generator/charts/xml.rs")],
  technique=T+"chart model against the chart part read back", note="Values are compared as parsed numbers, text exactly."),
 dict(id="C13", title="Tables keep their grid, cell content, merges and formatting",
  statement="A table on a slide is written with the given number of rows and columns, column widths and row heights, each cell holding its own text, formatting and alignment. Merged regions are written as one origin with its spans and covered cells marked in the matching direction.",
  over=["inputs"], qtext="all tables: sizes, text, per-cell formatting, merged rectangles, layouts",
  why="Tests check isolated cells; the grid only stays valid when every combination of span and covered cell is written consistently.",
  files=["src/generator/table/xml.rs","src/generator/table/cell.rs","src/generator/table/builder.rs"],
  mech=[("table writer","src/generator/table/xml.rs")],
  technique=T+"table model against the table read back", note="Every cell property has an expected attribute or element."),
 dict(id="C14", title="Images keep their bytes, format, place and effects",
  statement="Each image placed on a slide is packaged byte for byte under a name and content type that match its format and shown on that slide at the given position and size, with its cropping, rotation and effects. Two images never get each other's data.",
  over=["inputs"], qtext="all image formats, sources, sizes, crops, effects and counts over several slides",
  why="The pairing of relationships, part names and bytes over many slides is quantified over decks; tests use one image.",
  files=["src/generator/images.rs","src/generator/images_xml.rs","src/generator/builder.rs"],
  mech=[("image writer","src/generator/images_xml.rs"),("media packaging","src/generator/builder.rs")],
  technique=T+"image model against packaged media read back", note="Bytes compared exactly through the slide's own relationship."),
 dict(id="C15", title="Settings, document properties, ink and templates arrive in the file",
  statement="For every combination of theme, slide show, print, font and signature settings, every choice of layout, transition and ink per slide and every document title, the saved presentation declares exactly the values chosen, each font and ink part carries the given data and the document properties state the real titles, counts and dates. A presentation made from a template keeps the template's master, layouts, theme, pictures and links with their data and types, and its slides use the layouts asked for, through either way of writing.",
  over=["inputs","configurations"], qtext="all combinations of settings, layouts, transitions, ink drawings and titles, and all templates with any settings, part names, renumbered parts, pictures and links",
  why="Tests look at the fragment one setting produces; a setting is lost or misread in the file depending on the others, on the texts it holds and on what the template calls its parts.",
  files=["src/generator/builder.rs","src/generator/template.rs","src/generator/props_xml.rs","src/generator/slide_content"],
  mech=[("settings","src/generator/slide_content"),("document properties","src/generator/props_xml.rs"),("template","src/generator/template.rs")],
  technique=T+"generated settings and templates, the saved file read back by an independent reader and compared value by value", note="Custom slide ranges, media and InkML brush properties are recorded findings; print settings other than header, footer, date and page number are left out of the file by design."),
 dict(id="C16", title="Hyperlinks lead where they were told to",
  statement="Every hyperlink on a shape, image or run of text leads to exactly the address, mail address with subject, file, slide or slide-show jump it was given, with its tooltip. Links on one element never change the target of another.",
  over=["inputs"], qtext="all link kinds, addresses, subjects and tooltips on any mix of elements",
  why="Relationship numbering shifts with every other feature of the slide, so a wrong target only appears in combinations.",
  files=["src/generator/hyperlinks.rs","src/generator/package_xml.rs","src/generator/shapes_xml.rs"],
  mech=[("link relationships","src/generator/package_xml.rs")],
  technique=T+"link model against relationships resolved from the package", note="Each link is resolved through the slide's own relationships and compared with the request."),
 dict(id="C17", title="Shapes and connectors keep geometry, fill, line and text",
  statement="Every shape and connector is written with its kind, position, size, rotation, flips, fill or gradient, line, text and ends as given, and connectors attached to shapes name the right shapes and connection sites. Shapes are drawn in the order given.",
  over=["inputs"], qtext="all shape kinds, geometries, fills, gradients, lines and connector options",
  why="There are over a hundred shape kinds and many optional attributes; tests sample a few.",
  files=["src/generator/shapes.rs","src/generator/shapes_xml.rs","src/generator/connectors.rs","src/generator/gradients.rs"],
  mech=[("shape writer","src/generator/shapes_xml.rs"),("connector writer","src/generator/connectors.rs")],
  technique=T+"shape model against the shape tree read back", note="Kinds are also compared with an independent table of preset geometry names."),
 dict(id="C18", title="Text formatting of titles and bullets is kept",
  statement="Bold, italic, underline, strike, colour, size, font, highlight, super- and subscript, alignment, bullet kind and level given for the title, the content or a single bullet are written on exactly those runs and paragraphs. Formatting of one bullet never leaks to another.",
  over=["inputs","configurations"], qtext="all formatting settings at slide, bullet and run level and all layouts",
  why="Defaults and overrides interact per layout; tests check one flag in one layout.",
  files=["src/generator/slide_content/bullet.rs","src/generator/slide_xml/common.rs","src/generator/text/format.rs"],
  mech=[("bullet writer","src/generator/slide_xml/common.rs")],
  technique=T+"formatting model against run properties read back", note="Expected run and paragraph properties are computed from the request, not from the code."),
 dict(id="C05", title="Reading a presentation gives back what is in it",
  statement="Opening any presentation, written by the library or by another producer, yields its slides in presentation order with the titles, body text, shapes, tables and text formatting they hold, independent of part names, relationship ids and how targets are spelled. Importing slides for further editing keeps titles, bullet text, shapes and the first table.",
  over=["inputs"], qtext="all packages: generated decks, re-spelled packages and hand-written slide markup with groups, runs, fields, breaks and merged cells",
  why="Tests read files the library wrote itself, with names and ids that match the slide order; other spellings need generation.",
  files=["src/oxml/presentation.rs","src/oxml/slide.rs","src/oxml/xmlchemy.rs","src/import/mod.rs"],
  mech=[("reader","src/oxml/presentation.rs"),("slide parser","src/oxml/slide.rs")],
  technique=T+"round trip of generated and hand-written packages against their model", note="Packages by other producers are imitated by rewriting names, ids, targets, attribute order and white space, and by slides written by hand."),
 dict(id="C06", title="Editing changes exactly the slides it names",
  statement="After any sequence of adding, inserting, updating, removing, duplicating and moving slides the saved presentation holds exactly the resulting list of slides in order; untouched slides and all other parts stay as they were, and the package stays sound. An operation on a slide that does not exist fails and changes nothing.",
  over=["histories","inputs"], qtext="all presentations and all operation sequences with valid and invalid indexes, with save and reopen in between",
  why="Tests perform one operation on a fresh deck; part names, ids and shared parts only collide in longer histories.",
  files=["src/oxml/editor.rs","src/opc/package.rs"],
  mech=[("editor","src/oxml/editor.rs")],
  technique=T+"stateful model-based generation against a list of slides", note="New slides carry no parts of their own (recorded finding)."),
 dict(id="C09", title="The validator accepts what the library writes and reports damage",
  statement="Every package the library writes validates without any issue. Every package with a missing part, dangling or unlisted slide or reference, duplicate shape id, missing content type, malformed XML, unreadable entry, or incomplete chart, master or theme is reported as invalid with an issue that names the part.",
  over=["inputs","fault_sequences"], qtext="all generated decks and all single damages at every part and byte",
  why="Tests validate a handful of decks and two corruptions; both directions are statements about every deck and every place that can break.",
  files=["src/core/package_validation/rules.rs","src/core/package_validation/context.rs","src/core/validation.rs"],
  mech=[("rules","src/core/package_validation/rules.rs")],
  technique=T+"injected package damage with a known expected report", note="Damage is only counted when an independent parser or reader rejects it too."),
 dict(id="C10", title="Repair reports damage truthfully and harms nothing",
  statement="Repairing a sound presentation changes nothing; damage is reported, and what is reported is either repaired or listed as not repaired. A result called valid has no issues when opened again, keeps every undamaged part, and holds the remaining slides in order with the content types they had.",
  over=["inputs","fault_sequences"], qtext="all presentations, also by other producers, with one or two damages",
  why="Interplay of damages (a malformed list with missing relationships) and unusual spellings are not in any test.",
  files=["src/oxml/repair.rs"],
  mech=[("repair","src/oxml/repair.rs")],
  technique=T+"injected package damage with invariants over the repaired package", note="References to a removed relationship are a recorded finding."),
 dict(id="C07", title="The package container is a faithful map of parts",
  statement="After any sequence of opening, adding, replacing, changing and removing parts, saving and reopening, a package holds exactly the resulting parts with their exact bytes, and archives written by others open to exactly their parts. A destination that fails makes saving fail.",
  over=["histories","inputs","fault_sequences"], qtext="all operation histories, part names, contents and destination faults",
  why="Tests add two parts; names, sizes, replacement and reopening interact only in histories.",
  files=["src/opc/package.rs"],
  mech=[("container","src/opc/package.rs")],
  technique=T+"stateful model-based generation against a map, saved archives read independently", note="Archives are also produced by the harness: stored or deflated, in any order, with bytes in front."),
 dict(id="C11", title="Compression loses nothing that is shown",
  statement="Compressing a presentation keeps every slide, text, used media file and all other parts unchanged in meaning; only what the options name is removed, together with every reference to it, and the package stays sound. The reported sizes, percentage and counts are the real ones, and simultaneous calls do not disturb each other.",
  over=["inputs","configurations","schedules"], qtext="all presentations, also by other producers and with indented XML, and all option combinations",
  why="Tests only look at the resulting size; what is lost depends on which parts refer to which, on white space and on the options.",
  files=["src/opc/compress.rs"],
  mech=[("compression","src/opc/compress.rs")],
  technique=T+"metamorphic comparison of every part before and after", note="Input packages get unused and indirectly used media, comments, thumbnails and indented XML."),
 dict(id="C08", title="No input file can crash, hang or exhaust a reader",
  statement="Whatever bytes a file holds, opening it with the reader, importer, editor, repairer, validator, container, compressor and analyser ends with a result or an error in bounded time and memory. What a reader accepts it also serves: every slide it counts can be asked for, it agrees with itself across its ways of asking, and anything saved from it can be opened again.",
  over=["inputs"], qtext="all byte strings: mutated packages, mutated parts, damaged archives, deep nesting, huge numbers and noise",
  why="Tests feed well-formed files of one producer; a crash needs a particular malformed value at a particular place.",
  files=["src/oxml","src/opc","src/import","src/core"],
  mech=[("XML parser","src/oxml/xmlchemy.rs"),("slide parser","src/oxml/slide.rs"),("container","src/opc/package.rs")],
  technique=T+"structure-aware mutation fuzzing of packages, with panic, crash and hang detection", note="Structural XML mutations, byte mutations and noise; each case runs in a supervised worker process."),
 dict(id="C19", title="Importing HTML keeps every text on the slide of its section",
  statement="For any HTML document, headings of the first level and horizontal rules start slides, and every heading, paragraph, list item, table cell, caption, code block, quotation and picture of the visible content appears once, decoded, in document order and with the colours, size and marks its styles give, on the slide of its section, while scripts, styles and navigation do not appear. Missing end tags, void tags, stray tags and arbitrary bytes neither lose texts nor crash, and the limits on slides and bullets are kept.",
  over=["inputs","configurations"], qtext="all documents built from headings, paragraphs, lists, tables, quotations, code, pictures, sections, styles and inline elements in any legal spelling, all import options, and arbitrary tag soup",
  why="Tests import tidy short documents; what is lost depends on which element is left open, void or nested in which other and on how characters are spelled.",
  files=["src/import/html.rs","src/cli/commands.rs"],
  mech=[("importer","src/import/html.rs"),("command","src/cli/commands.rs")],
  technique=T+"generated document trees against a reference model of the slides, and tag-soup fuzzing", note="Nested lists, link targets and repeated quotations are recorded findings and left out of the generated documents."),
 dict(id="C20", title="Importing Markdown loses nothing and keeps its structure",
  statement="For any Markdown document, headings of the first level and thematic breaks start slides, and every heading, list item with its depth, paragraph, quotation, table cell, code block with its language, diagram and picture appears once, in document order, on the slide of its section. The command writes exactly those slides, and documents joined one after the other give the slides of the one followed by those of the other.",
  over=["inputs"], qtext="all documents built from nested lists, tables, quotations, code, pictures, emphasis and headings in any spelling, and arbitrary text",
  why="Tests import short fixed documents; what is lost depends on which block follows which and how they nest.",
  files=["src/cli/markdown/parser.rs","src/cli/commands.rs"],
  mech=[("importer","src/cli/markdown/parser.rs"),("command","src/cli/commands.rs")],
  technique=T+"generated document trees against a reference model of the slides", note="Inline marks are compared as written (recorded finding)."),
 dict(id="C22", title="Exported Markdown reads back as the presentation",
  statement="Whatever characters the texts hold, a Markdown reader sees in the exported document exactly the title, slide headings, bullets, table cells, picture references, code and notes of the presentation, in order and with no other structure. The options leave out exactly what they name, and the front matter holds the title and slide count.",
  over=["inputs","configurations"], qtext="all decks with any text, tables with merged cells, code with fences, pictures of any format and all export options",
  why="Tests look for substrings of harmless text; whether text turns into structure depends on where special characters and line breaks fall.",
  files=["src/export/md.rs","src/api.rs"],
  mech=[("exporter","src/export/md.rs")],
  technique=T+"export read back by an independent CommonMark/GFM parser and compared block by block", note="The parser is pulldown-cmark, which the exporter does not use."),
 dict(id="C23", title="Exported HTML shows the presentation and nothing else",
  statement="Whatever characters the texts hold, an HTML parser finds in the exported page, without any error, one section per slide with exactly its title, bullets, table cells with their spans, embedded pictures with their bytes, code and notes, in order and with no other element. The options leave out exactly what they name.",
  over=["inputs","configurations"], qtext="all decks with any text, tables with merged cells, code, pictures of any format and all export options",
  why="Tests export plain text; injection and loss depend on the characters and on which elements a slide holds.",
  files=["src/export/html.rs","src/api.rs"],
  mech=[("exporter","src/export/html.rs")],
  technique=T+"export read back by an independent HTML5 parser and compared element by element", note="Pictures written to separate files are a recorded finding."),
 dict(id="C25", title="Lengths, colours and picture sizes mean the same in every notation",
  statement="A length given in EMU, inches, centimetres, points, percent or a fraction of the slide ends up in the file as the same length, and one that does not fit ends at the nearest limit. A colour given as a hexadecimal string, numbers or a name is the colour written, blending stays between its ends, and a malformed colour is refused or replaced without a crash. The size and format found in a picture's bytes are those of the picture, for every layout its format allows.",
  over=["inputs"], qtext="all lengths in all units including negative and huge ones, all colour strings and blends, all header layouts of the five picture formats, and arbitrary bytes",
  why="Tests convert a handful of round values; a wrong factor, clamp or byte order shows only for particular units, limits or header variants.",
  files=["src/core/dimension.rs","src/elements","src/helpers/colors.rs","src/generator/images.rs"],
  mech=[("lengths","src/core/dimension.rs"),("colours","src/helpers/colors.rs"),("picture headers","src/generator/images.rs")],
  technique=T+"generated values against exact arithmetic, pictures built from their format definitions", note="Theme colours given to the fill helper are a recorded finding."),
 dict(id="C29", title="Ready-made helpers, layouts and templates produce what they are given",
  statement="Arranged shapes keep order, spacing and symmetry and stay on the slide when they fit. Tables made by the table helpers hold every given text in place with the promised styling and one cell per column in each row. Template decks and the one-line builders show every title and text they are given, in order, and shape helpers give the shape, place, text and colours asked for.",
  over=["inputs","configurations"], qtext="all counts, sizes and spacings, all tables including ragged ones, all template contents and shape helper arguments",
  why="Tests call each helper once with friendly values; lost content and bad positions depend on counts of zero, sizes beyond the slide, uneven rows and layouts that leave text out.",
  files=["src/prelude.rs","src/helpers","src/templates.rs","src/generator/slide_xml/layouts.rs"],
  mech=[("positions","src/prelude.rs"),("tables","src/helpers/tables.rs"),("templates","src/templates.rs")],
  technique=T+"geometric invariants, and saved decks compared with what the helper was given", note="Arrangements larger than the slide need only give one position per shape."),
 dict(id="C31", title="The command-line tool does what it says and touches nothing else",
  statement="Every command either ends successfully with exactly the requested file written, or with a failure status, a reason on the error stream and every file as before. Created and converted files hold what the library makes of the same input and options, merged files hold the slides of all inputs in order, exported files have the requested format. Information and validation, as text and as JSON, agree with the file and with each other, and the exit status says whether it is valid.",
  over=["inputs","configurations"], qtext="all commands and aliases with any option order and values, any titles and file names, sound, damaged, missing and foreign inputs",
  why="Tests parse two or three command lines and call the functions behind them with plain values; what the installed tool writes and returns for odd names, failing inputs and option combinations is not looked at.",
  files=["src/bin/pptcli.rs","src/cli/parser.rs","src/cli/commands.rs"],
  mech=[("tool","src/bin/pptcli.rs"),("commands","src/cli/commands.rs")],
  technique=T+"generated command lines run as processes in scratch directories, compared with the library and with snapshots of the directory", note="Commands that need external programs (PNG export, PDF import) or a network are not run."),
 dict(id="C24", title="Exported PDF pages show the slides' text",
  statement="The slide-style PDF is a well-formed document with one landscape page per slide, whatever the texts, sizes and colours. Each page shows the title, then the bullets with their markers and the code in order, downwards and inside the page, in the asked style, size and colour, every Latin character unchanged, and ends with the page number. The document-style PDF is well formed in the asked orientation and shows all plain texts in order.",
  over=["inputs","configurations"], qtext="all decks with any text, bullet style, size, colour and layout, and all export options",
  why="Tests look at the first five bytes; broken offsets, lengths, escapes, encodings and lost lines depend on the characters and on how much a slide holds.",
  files=["src/export/slide_render.rs","src/export/pdf_export.rs"],
  mech=[("pages","src/export/slide_render.rs"),("document","src/export/pdf_export.rs")],
  technique=T+"an independent strict PDF reader that checks offsets and stream lengths, decodes the text operators and compares them with the deck", note="Other characters may become question marks; overflowing lines may be dropped from the end; tables and pictures are not drawn by design."),
 dict(id="C21", title="Mermaid diagrams in Markdown become complete slides",
  statement="Every diagram of the twelve supported kinds becomes shapes that show each node, participant, message, task, class, attribute, entity, event, commit and label text exactly as often as the diagram has it, in the order of the text, with nothing else written. Every arrow becomes a connector from the shape of its first end to the shape of its second, also with several diagrams on a slide and in the saved file, and boxes do not overlap. Converting the same text again gives the same slide, and broken diagram code never crashes.",
  over=["inputs","programs"], qtext="all diagrams of the twelve kinds in their common syntax, with any order of definitions and uses, label text and comments, alone or several on a slide, and damaged diagram code",
  why="Tests only look whether any shape exists; lost nodes, wrong ends and changing order depend on how definitions, chains, special characters and diagrams combine.",
  files=["src/cli/markdown/mermaid","src/cli/markdown/parser.rs","src/generator/slide_xml/content.rs"],
  mech=[("diagrams","src/cli/markdown/mermaid"),("placing on the slide","src/cli/markdown/parser.rs")],
  technique=T+"diagrams generated from a model of their texts and arrows, and compared with it before and after saving", note="Titles of pie, journey and quadrant diagrams, notes, styles and nested states are outside the claim."),
 dict(id="C26", title="The XML layer reads and writes what the XML standard says",
  statement="Parsing any well-formed XML document gives its elements, attributes, namespaces and text exactly as the XML standard reads them, searching the tree finds every match in document order, and a malformed document is refused. Text written through the XML helpers reads back as the same text, without the characters XML cannot carry, in elements and attributes.",
  over=["inputs"], qtext="all well-formed documents up to hundreds of nesting levels, all single-fault malformed ones, all trees and texts",
  why="Tests parse a few clean snippets; namespace scopes, references, character data sections and forbidden characters combine without limit.",
  files=["src/oxml/xmlchemy.rs","src/core/xml_utils.rs","src/oxml/ns.rs"],
  mech=[("parser","src/oxml/xmlchemy.rs"),("writer","src/core/xml_utils.rs")],
  technique=T+"generated documents against an independent strict XML parser, damaged documents, write/read round trips", note="DOCTYPE, other encodings than UTF-8 and text order in mixed content are outside the claim."),
 dict(id="C27", title="Package parts built or read one by one keep what they hold",
  statement="A relationship list, content type list, property, presentation, slide, layout, master, theme, notes, chart, table or media part built by hand is written as valid XML that says exactly what it was given, with ids and names that do not collide. Reading a written or foreign part gives back what the part says, and malformed parts are refused.",
  over=["inputs","histories"], qtext="all contents of the thirteen part kinds, any texts, any order of additions and removals, any foreign spelling of a part, and malformed parts",
  why="Tests build each part with one or two harmless values and look for substrings; collisions, unescaped texts and lost settings depend on the values and on the order of calls.",
  files=["src/parts","src/opc"],
  mech=[("parts","src/parts")],
  technique=T+"generated call histories against a model of the part, decoded by an independent XML parser, and read/write round trips", note="Setters on parts that were read, and reading table parts, are recorded findings."),
 dict(id="C30", title="Converted web pages keep their content in order",
  statement="For any web page with a recognisable main part, the converted presentation has the page's title and shows every heading, paragraph, list item, quotation, table cell, code block and picture description of the main part once, in the order of the page, split into slides at the headings and no longer than the options allow. Navigation, scripts and other furniture stay out, the options do what they say, and arbitrary input gives a readable presentation or an error.",
  over=["inputs","configurations"], qtext="all pages built from the usual blocks in any order, nesting and length, with any furniture, any options, served from a local server or given as text, and tag soup",
  why="Tests convert three short pages; which blocks get lost, doubled or reordered depends on how they follow and nest.",
  files=["src/web2ppt"],
  mech=[("parser","src/web2ppt/parser.rs"),("converter","src/web2ppt/converter.rs"),("fetching","src/web2ppt/fetcher.rs")],
  technique=T+"pages generated from a document model and compared with the saved presentation", note="Author, page number and link options are recorded findings; very short blocks may be left out."),
 dict(id="C28", title="Builders used on their own give exactly what was asked, or refuse",
  statement="Merge maps, sections, comments, text frames, right-to-left settings, inline marks, gradients, links, pictures, media, connectors and layout slides built on their own hold exactly what the calls so far say, and write it as valid XML that states every text, colour, size, angle and target given. A request that cannot be met, such as overlapping merges, is refused and changes nothing.",
  over=["inputs","histories"], qtext="all sequences of builder calls with any texts, colours, sizes, positions and slide numbers",
  why="Tests call each builder once with harmless values; collisions, overflow, unescaped text and dropped settings depend on the values and on earlier calls.",
  files=["src/generator/slide_content","src/generator/text","src/generator/gradients.rs","src/generator/hyperlinks.rs","src/generator/connectors.rs","src/generator/media.rs","src/generator/layouts"],
  mech=[("merge maps, sections, comments","src/generator/slide_content"),("text","src/generator/text"),("layout slides","src/generator/layouts")],
  technique=T+"generated call histories against a model of the builder, its XML decoded by an independent parser", note="Sizes 1 to 4000 points; colours are hex; gradients have two or more stops."),
 dict(id="C32", title="Pages and pictures through the external renderers come out complete",
  statement="When a PDF is imported or slides are exported as pictures through the external programs, every page becomes one slide or picture in page order with exactly the bytes the program made, under the documented name and from a document that shows exactly the given slides. A missing or failing program, unreadable input or unwritable target gives an error, and no call touches any file besides the ones it was asked for, also when several run at the same time.",
  over=["inputs","configurations","fault_sequences","schedules"], qtext="all numbers of pages and slides, slide choices, file names, existing files, missing or failing programs, and simultaneous calls",
  why="The programs are not installed where the tests run, so no test passes through this code; page order beyond nine, leftovers after failures and clashes of simultaneous calls need a controllable program.",
  files=["src/export/image_export.rs","src/api.rs"],
  mech=[("pictures of slides","src/export/image_export.rs"),("pages of documents","src/api.rs")],
  technique=T+"generated decks, page counts, failures and simultaneous calls against recording stand-ins for the external programs", note="The programs are stand-ins; resolution, size and quality options are a recorded finding."),
]
NOT_APPLICABLE = []
