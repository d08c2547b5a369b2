# id: (how it is decided, what it reaches that tests cannot, limits/design decisions respected)
NOTES = {
'C01': ("Rich decks (all elements, layouts, transitions, ink, notes, links) and decks with all settings (theme, fonts, signatures, protection, print and show settings) are built; the bytes are read by `opc.rs` and `xml.rs` and all package invariants are asserted.",
        "Closure of ids and parts depends on combinations of optional features on several slides; tests open a few fixed decks.",
        "Pictures whose bytes cannot be read are skipped by design; a link to a slide number that does not exist is the caller's mistake."),
'C02': ("Every part of a generated deck is walked with the content model; order, multiplicity, required attributes, simple types, shape-id uniqueness, text body completeness.",
        "Order errors appear only when particular optional children coexist.",
        "Extension lists are not descended into."),
'C03': ("The visible text of the n-th slide is extracted from the package in presentation order and compared with the request, after removing characters XML cannot hold.",
        "All Unicode, all layouts and mixtures, more than nine slides.",
        "TitleAndContent shows a table instead of the body text by design; the layouts' column split is modelled."),
'C04': ("The same deck goes through the in-memory, writer, file and lazy paths and is compared part by part; decks are joined; a destination that fails at the n-th write/seek/flush (several error kinds, short writes) must make the call fail; a counting destination shows nothing is written after failure.",
        "Fault positions and decks are swept; tests use healthy destinations.",
        "Archives carry zip timestamps, so parts, not bytes, are compared. Slide-number links in joined decks are not renumbered (not claimed)."),
'C05': ("Round trip of generated decks, the same decks respelled as another producer would, slides written by hand as XML with a known meaning, and import for further editing.",
        "Independence of names, ids and spelling is a metamorphic relation no example settles.",
        "Import claims titles, bullet text, shape kind/place/text and the first table's cells and merges only."),
'C06': ("Stateful: random histories of add/insert/update/remove/duplicate/move against a list of slides, with saves and reopens in between; untouched parts are compared byte for byte, invalid operations must fail and change nothing.",
        "Histories; part-name and id collisions only after certain sequences.",
        "See the two open findings; slides with slide-links are not opened by the editor check."),
'C07': ("Stateful: a map of part name → bytes is the model of the container; saved archives are read by `opc.rs`; archives by others (stored/deflated, any order, prefix bytes) are opened; failing destinations are injected.",
        "Histories, archive spellings and fault points.", ""),
'C08': ("Structure-aware fuzzing: valid packages with mutated XML structure, mutated bytes, noise and text-level mutations go through every reading interface in a supervised worker; panics, crashes, hangs, memory and inconsistencies between interfaces are violations.",
        "Hostile inputs are unbounded.",
        "On damaged packages the reader and the editor may see different numbers of slides (a stronger equality was a false alarm and was dropped)."),
'C09': ("Clean decks must validate without issue; damaged ones (see *Damage*) must be reported with an issue naming the part.",
        "The kind of damage × kind of part matrix.", "A part covered only by a less specific default content type is not flagged by design; an Override for a missing part is not judged."),
'C10': ("Repair of sound packages must be the identity; of damaged packages: reported = repaired ∪ unrepaired, valid ⇒ no issues on reopening, undamaged parts unchanged, remaining slides in order, content types as before.",
        "Damage × package combinations and repair cascades.", "Dangling references left after removing a relationship: open finding."),
'C11': ("Metamorphic: every part before and after compression is compared for meaning (XML modulo white space between elements), with generated options; removed parts must be named by the options and unreferenced; several compressions in parallel threads; the arithmetic of the summary.",
        "Unused/indirectly used media, mixed white space, concurrency on shared temp names.", "White space in elements without child elements carries meaning."),
'C12': ("The chart part and its embedded workbook are read back and compared with the model: kind, title, categories, series, values, counts, indexes, markers, axes, position; workbook cells equal the caches.",
        "Value, count and kind combinations; non-finite numbers.", "An empty text may be an empty workbook cell; ScatterSmooth markers are free."),
'C13': ("The table is read back from the slide and each cell's text, run formatting, fill, borders, alignment, margins and merges are computed from the request.",
        "Combinations of merges and formats.", "Inner cells of a two-way merge are VMerge only."),
'C14': ("Each picture is resolved through its own slide's relationship and compared byte for byte with the request, plus extension, content type, place, crop, rotation, effects.",
        "Sharing/deduplication across slides and formats.", ""),
'C16': ("Each link on shapes, pictures and runs is resolved through the slide's relationships and compared with the request.",
        "Several links on one element/slide; any characters in addresses.", ""),
'C17': ("Shapes and connectors are read back in drawing order and compared with the request, kinds against an independent table of preset names.",
        "Kind × fill × line × flip × rotation × text combinations; connection sites per geometry.", "Rotations are compared modulo a full turn (corrected false alarm)."),
'C18': ("Run and paragraph properties are read back and compared with those computed from the request, per bullet.",
        "Leaks between neighbouring bullets need particular sequences.", "Section headers are bold by design; sizes nobody set are the layout's own."),
'C15': ("All settings of a deck, transitions, ink, and templates (generated, by hand, through both ways of writing) are read back value by value, defaults taken from the schema.",
        "Settings interact (e.g. two switched-off options; default values that differ).", "prnPr and signer e-mail/organisation are left out by design; the template's slide size is not taken over."),
'C19': ("Documents generated from a model tree; expected slides computed from the tree; also through the html2ppt command; tag soup (unclosed, stray, void, random bytes) for panics, limits and lost texts.",
        "Nesting × flushing order.", "See open findings; false alarms corrected: stray `</em>`/`</section>` inside open elements."),
'C20': ("Documents generated from a tree; expected slides from the tree; md2ppt; concatenation homomorphism; noise.",
        "Block adjacency: every kind of block next to every other.", "Inline marks: open finding."),
'C21': ("Diagrams of all twelve kinds generated from a model of texts and arrows; texts as multiset and order, connectors by end shapes, no overlap of boxes, determinism, saved file; broken code.",
        "Diagram structure and id collisions across diagrams.", "RL/BT are not mirrored; gantt bars are schematic; thousands of nodes overflow positions (not claimed)."),
'C22': ("The export is parsed by pulldown-cmark and compared block by block, with generated options.", "Any characters that are Markdown syntax, in any position.", ""),
'C23': ("The export is parsed by html5ever (no parse errors allowed) and compared element by element, with generated options.", "Any characters that are HTML syntax, in any position.", "Separate picture files: open finding."),
'C24': ("The PDF is read by `pdf.rs`; pages, text positions, fonts, sizes, colours, order, markers, page numbers; odd sizes and characters; the document-style PDF through text comparison.",
        "Escapes, encodings, wrapping and overflow for arbitrary texts.", "Characters outside Latin-1 become `?`; overflow is dropped from the end; tables, shapes and pictures are not drawn by design."),
'C25': ("Lengths against exact rational arithmetic; every named colour against a table of its own (CSS names, Material palette, presets), scheme colours as written; colour parsing and blending against their definition; picture headers built from the format definitions with random legal variations; random bytes.",
        "Boundary values and legal header variations.", "Conversions may be off by one EMU."),
'C26': ("Generated documents parsed by the crate and by `xml.rs`; damaged documents must be refused; text written through the helpers reads back.",
        "The XML grammar's corner cases.", "`xml-rs` does not normalise `\\r\\n` and attribute blanks (compared modulo); DOCTYPE not generated."),
'C27': ("Histories of calls on each part type against a model; the XML is decoded by the independent parser; read/write round trips; malformed parts refused.",
        "Id/name allocation after removals and mixed read/written entries.", "Theme colours outside the twelve names are not written; unstated app properties count as 0/false/empty."),
'C28': ("Histories of calls on each stand-alone builder against a model, decoded by the independent parser and content model.",
        "Merge overlaps, section edits, numbering per author, exact angles and sizes; named constants (chart kinds, gradient presets, picture formats, pens, print settings) against the schema's vocabulary.", "Print settings for handouts write a value outside the schema, fixed by an existing test and never packaged: not claimed. Blank layout shows nothing; unbalanced marks compare characters only."),
'C29': ("Geometric invariants for arrangements (order, equal gaps, symmetry, containment), and saved decks compared with what the helper was given.",
        "All counts and sizes.", "Plain cells are centred by default (corrected false alarm)."),
'C30': ("Pages generated from a document model are served by a loopback HTTP server or given as text, converted, saved and compared with the model; options; noise.",
        "Page structure × options.", "Texts over 150 bytes may be cut with `...`; very short blocks may be left out."),
'C31': ("Command lines are generated and run as processes in scratch directories; files are compared with what the library makes of the same input; the directory (files and directories) is compared with its snapshot; exit status and streams.",
        "Failing inputs, positions of options, existing files.", "Default titles of converted documents are not judged; unknown export extensions fall back to PDF (not judged)."),
'C32': ("`pdftoppm` and `soffice` are replaced by recording stand-ins on a private PATH: they copy their input (which must be a presentation or PDF with exactly the given slides), write one distinct picture per page under the real programs' naming rules, or fail, or are missing; results, files left behind, existing neighbours and simultaneous calls are compared with the request.",
        "Page counts beyond nine, failures half-way, leftovers, name clashes and concurrency need programs whose output is under control.", "How the real programs draw is out of reach; pictures of imported pages keep their natural size; a renderer that claims success has written every page."),
}

MID = '''## Not claimed

* The `mcp` server (feature does not build here).
* What LibreOffice and poppler draw: the programs are not installed. C32 decides everything around them with stand-ins.
* `pptcli md2ppt` with an input named `.pptx` overwrites its input by default.
* The default title of converted documents; unknown export extensions (they fall back to PDF).

## False alarms met and corrected

Each of these was a check that was too strong or an oracle that misread the code; the property or the machinery was changed, none is a known finding.

* C08: reader and editor may count slides differently on damaged packages; equality dropped.
* C10: an Override for a missing part is legal; not judged.
* C15: lookup of `xml:id` by namespace in the harness; vml test data; defaults of showNarration/useTimings are the schema's.
* C17: rotations are compared modulo a full turn.
* C19: stray `</em>` and `</section>` inside open elements close them, as HTML says.
* C21: a quadrant point whose label equals an axis label.
* C24: a page number in the middle of a text that is wrapped over a page break (document style).
* C26: `\\r\\n` in attributes in the harness' own parser.
* C29: cells of a plain table are centred by default.
* C31: usage words used as output names.
'''
CAUGHT = {i: 'yes, quick tier' for i in ['c01-repeated-image', 'c04-lazy-blank-title', 'c05-bool-true', 'c07-empty-part', 'c13-row-height', 'c15-show-both', 'c17-hard-stop', 'c18-bullet-colour', 'c22-blank-rows', 'c24-wide-title', 'c25-whole-points', 'c28-empty-section', 'c31-early-directory', 'c30-skip-limit', 'c19-two-decorations']}
CAUGHT['c09-internal-mode'] = 'yes, quick tier; missed at first: the generator now writes TargetMode="Internal" out on some relationships'
CAUGHT['c16-file-slash'] = 'yes, quick tier; missed at first: file links now also go to network shares and odd paths'
CAUGHT['c21-task-colon'] = 'yes, quick tier; missed at first: gantt and timeline texts now hold times of day'
TAIL = ''
