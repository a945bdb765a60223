p("C01", "The output file's numbering, cross-reference table and trailer are exact",
  "Every document the library writes is one well-formed PDF file: objects are numbered 1..n in file order, the cross-reference table has one 20-byte entry per object holding that object's exact byte offset, startxref is the offset of the table, and the trailer's Size and Root (and Encrypt and ID when encrypted) are right. This holds whatever the pages contain and however many bytes each object takes.",
  ["inputs", "programs", "configurations"], "every sequence of page and drawing calls, every coordinate value (so every printed length), every object size, with and without compression, document info and encryption",
  "Tests write a few fixed documents and hardly look inside; offsets depend on the byte length of every printed number and compressed stream, so an off-by-some error shows only for particular lengths.",
  ["gopdf.go", "content_obj.go", "imported_obj.go"], [("object and offset writing", "gopdf.go: compilePdf"), ("xref and trailer", "gopdf.go: xref"), ("byte counting", "gopdf.go: countingWriter")])
p("C02", "A failing writer is always reported and its byte count is exact",
  "When the destination writer fails, or accepts only part of a write, at any point of the output, writing the document returns that error, and the returned count is the number of bytes the destination accepted. When every write succeeds no error is returned and the whole document has been delivered; reading the document in chunks of any size gives the same bytes and then end of file.",
  ["crash_points", "fault_sequences", "inputs"], "every byte position (and every call index) at which the destination can fail, with and without a partial write, one-off and persistent failures, every chunk size of reading considered",
  "The tests never pass a failing writer; the failure has to happen at a particular byte for most ignored return values to matter.",
  ["gopdf.go", "buff_write.go", "content_obj.go"], [("write path", "gopdf.go: compilePdf, WriteTo, Write, Read"), ("object writers", "every IObj write method")])
p("C03", "Output is repeatable, deterministic and leaves the document unchanged",
  "Writing a document does not change it: writing again by any of the output calls gives byte-identical output, and a document that was also written while it was being composed ends up identical to one that was not. The same sequence of calls always gives the same bytes.",
  ["histories", "programs", "schedules"], "every pair of output calls, outputs placed between drawing calls, every iteration order of the maps involved, encrypted and plain, every coordinate value",
  "Each test writes its document once; map iteration order is random and varies between runs.",
  ["gopdf.go", "procset_obj.go", "cache_content_imported_object.go", "content_obj.go"], [("preparation before output", "gopdf.go: prepare"), ("cached drawing operations", "list_cache_content.go"), ("resource dictionary", "procset_obj.go")])
p("C04", "Every reference, resource name and page-tree link in the output resolves",
  "In every document written, each indirect reference points to an object that is in the file; each page appears exactly once in the page tree with its own contents; each font, image, form, graphics state and colour space that a page's content names is defined once in that page's resources, as an object of that kind, and leads on to complete descriptions (font descriptor and font file, soft mask of the image's size, palette, mask form). Every stream's Length is the number of bytes in it.",
  ["programs", "inputs", "configurations"], "every sequence of up to two (thorough: three) drawing calls of a vocabulary of 36, all their options and all coordinate values, plain and encrypted, in points and millimetres",
  "Tests do not read the file back; a dangling reference or missing resource depends on which objects were created in which order.",
  ["gopdf.go", "procset_obj.go", "page_obj.go", "pages_obj.go", "content_obj.go", "image_obj.go", "transparency_xobject_group.go"], [("object numbering", "gopdf.go: addObj, prepare"), ("resources", "procset_obj.go"), ("images and masks", "gopdf.go: imageByHolder, maskHolder")])
p("C05", "Page content is always a valid sequence of PDF operators",
  "Whatever is drawn, in whatever order, each page's content (and each form's) consists of operators defined by PDF with the right number and types of operands; graphics states saved are restored and text objects begun are ended by the end of the page; paths are built and painted only outside text objects, state changes do not occur inside a path, and text is shown only after a font was selected.",
  ["programs", "inputs"], "every sequence of up to two (thorough: three) drawing calls of a vocabulary of 36 with all options and all coordinate values; all cell alignments, borders and floats; all texts of up to three characters",
  "A broken stream shows only for particular combinations (a border with no rectangle, a justified line, an empty string); tests look at no content stream.",
  ["content_obj.go", "cache_content_text.go", "cache_content_image.go", "cache_content_rotate.go"], [("drawing operations", "cache_content_*.go: write"), ("content stream", "content_obj.go: write")])
p("C06", "Everything is drawn where the caller put it",
  "Lines, rectangles, ovals, curves, polygons, clips, text, images (flipped, cropped, rotated about their centre), rotations, links, anchors and outline destinations appear at the coordinates given: x from the left edge, y down from the top edge of the page they are on, lengths in the document's unit, whatever size that page has, to within the printed precision. Text and cells move the current position by their own size as their Float option says, and every page has the size and trim box it was given or the document's.",
  ["inputs", "configurations"], "every coordinate and length, every page size (the document's or the page's own), all units and a custom one, all styles and flips, five rotation angles",
  "Positions are never asserted by the tests, and a wrong page height or unit shows only on pages with their own size or in documents not in points.",
  ["content_obj.go", "gopdf.go", "cache_content_image.go", "cache_content_rotate.go", "cache_content_rectangle.go", "page_obj.go", "annot_obj.go"], [("coordinates of drawing calls", "gopdf.go: Line, Rect*, Oval, Curve, Polygon, Image*, Rotate"), ("printing", "cache_content_*.go")])
p("C07", "A document means the same in every unit",
  "The same calls with the same physical lengths give the same document in points, millimetres, centimetres, inches, pixels or a custom unit: page sizes, boxes, coordinates, sizes, margins, line widths, dashes, spacing, crops, placeholders and page breaks all use the document's unit, and measurements and positions are returned in it. Font sizes are points and the named page sizes keep their real size in every unit.",
  ["inputs", "configurations", "programs"], "every drawing call with all options and all lengths in five units; every pair of calls in two units; all margins, positions and heights for page breaks and measurements",
  "Only an exhaustive comparison notices the one argument of the one call that is not converted (or converted twice).",
  ["config.go", "gopdf.go", "margin.go", "rect.go", "box.go"], [("conversion", "config.go: unitsToPoints, pointsToUnits"), ("public calls", "gopdf.go")])
p("C08", "Every character shown has its own glyph, width and Unicode value",
  "Text is shown as the two-byte codes of the glyphs its font gives for its characters, in order, and for every glyph shown the document states that glyph's own advance width in thousandths of the em and maps its code back to exactly the character that was written, in every plane. Characters the font lacks are reported to the caller's handler and replaced by the substitute, or are an error; fonts and pages do not mix up each other's glyphs.",
  ["inputs", "programs"], "every character of all planes, every glyph id and width, any units per em, substitutions and missing glyphs, many characters, two fonts on two pages in any order",
  "Tests look at no code, width or ToUnicode entry; copying and searching text in the file breaks only for particular characters and glyph numbers.",
  ["subset_font_obj.go", "cid_font_obj.go", "unicode_map.go", "cache_content_text.go", "map_of_character_To_glyph_index.go"], [("characters to glyphs", "subset_font_obj.go: AddChars, CharIndex"), ("widths", "cid_font_obj.go: write"), ("ToUnicode map", "unicode_map.go: pdfToUnicodeMap")])
p("C09", "The character map of a font is read as the TrueType specification says",
  "For every character the glyph used is the one that the font's character map gives: segments with deltas and with glyph id arrays, arithmetic modulo 65536, glyph 0 as missing, and the groups of the 32-bit table for characters beyond the basic plane. Characters outside every segment or group are missing, not an error of another kind.",
  ["inputs"], "every character code, up to three segments with any start, end, delta and range offset, glyph id arrays with any content, up to three groups with any ranges",
  "The tests use a few real fonts and a few letters of each; wrap-around, array segments and boundaries are hit only by particular fonts and characters.",
  ["subset_font_obj.go", "fontmaker/core/ttfparser.go", "fontmaker/core/ttfparser_cmap_other_format.go"], [("format 4 lookup", "subset_font_obj.go: CharCodeToGlyphIndex"), ("parsing", "fontmaker/core/ttfparser.go: ParseCmap")])
p("C10", "A broken font file gives an error or a well-formed document, never a crash",
  "Whatever bytes a font file has (truncated anywhere, or with wrong offsets, lengths, counts or contents), loading it, measuring, drawing text with it and writing the document each end with success or an error: no panic and no endless loop. When the output succeeds it is a well-formed file.",
  ["inputs", "fault_sequences"], "every truncation of a font, every value of every 16-bit word and of every table offset and length and group count, one at a time (thorough: pairs of size fields)",
  "Only intact fonts are tested; each malformed field needs its own value to cause an out-of-range access or a huge loop.",
  ["fontmaker/core/ttfparser.go", "fontmaker/core/ttfparser_kern.go", "fontmaker/core/ttfparser_cmap_other_format.go", "subset_font_obj.go", "pdf_dictionary_obj.go"], [("table parsers", "fontmaker/core/ttfparser*.go"), ("glyph data", "pdf_dictionary_obj.go: makeFont")])
p("C11", "The embedded font contains every glyph used, unchanged",
  "The font program in the output is a well-formed TrueType file with the source font's metric, hinting and header tables unchanged, and every glyph shown, the missing-glyph symbol and all their components (nested ones too) are in it byte for byte, under their own glyph numbers. This includes text added after an output was already written.",
  ["inputs", "programs", "histories"], "glyphs of any content and several sizes, composite glyphs with any flags, scales and arguments nested two levels, both index formats, any subset of characters in any order and through several calls, tables of any content, missing or placed last",
  "Tests never open the embedded font; a dropped component or shifted glyph shows only in a viewer for particular fonts and texts.",
  ["pdf_dictionary_obj.go", "buff.go", "buff_write.go", "fontmaker/core/table_directory_entry.go"], [("glyph closure and subset", "pdf_dictionary_obj.go: completeGlyphClosure, makeGlyfAndLocaTable"), ("font program", "pdf_dictionary_obj.go: makeFont")])
p("C12", "Text is measured and placed by the advance widths of its characters",
  "The width reported for a text, the distance the current position moves, the extent of an automatic cell and the pen positions in the content all equal the sum of the advance widths the font file gives, at the size set, plus kerning (when on) and character spacing; text drawn in pieces, by several calls on one line, lands where the same text drawn at once would. Heights come from the font's own metrics, and options that override a font's widths apply to measuring, drawing and the widths stated in the file alike.",
  ["inputs", "programs", "configurations"], "every advance width, kerning value, units per em, font metric, character spacing and position; texts of up to four characters cut anywhere; several kerning subtables",
  "Tests compare two or three widths of one font; a piece of text joined to the wrong run or a glyph without its kerning shows only for particular fonts and sequences of calls.",
  ["cache_content_text.go", "subset_font_obj.go", "list_cache_content.go", "content_obj.go", "fontmaker/core/ttfparser_kern.go"], [("measuring", "cache_content_text.go: createContent"), ("joining runs", "content_obj.go: AppendStreamText, AppendStreamSubsetFont"), ("kerning", "subset_font_obj.go: KernValueByLeft; ttfparser_kern.go")])
p("C13", "Splitting text into lines keeps every character and fits the width",
  "The lines a text is split into, put together again, are the text: nothing is lost, repeated or reordered except the spaces or line ends at which it was broken and the break indicator added. Each line, measured, fits the width unless a single character does not; a line is broken only where the next character or word would not have fitted, and inside words only when asked for or when a word alone exceeds the width. Splitting always terminates.",
  ["inputs", "configurations"], "every width of the line and of the characters (with and without kerning), every text of up to five characters of letters, spaces, line ends and multi-byte characters, every break mode and separator",
  "Tests split two or three sentences; loss of a character needs a line end, a space and the width to coincide.",
  ["gopdf.go", "strhelper.go", "cache_content_text.go"], [("splitting", "gopdf.go: SplitText, SplitTextWithWordWrap, SplitTextWithOption")])
p("C14", "Text in a rectangle wraps, aligns and stays inside it",
  "Text drawn into a rectangle over several lines shows its characters in order without loss until the rectangle is full, in lines no wider than the rectangle (unless one character is) and one line height apart, and nothing below the rectangle; the check whether a text fits agrees with what is drawn and gives the height used. Text with alignment options is one block placed at the top, middle or bottom, each line aligned on its own.",
  ["inputs", "configurations"], "every rectangle size and position, character width and line height, every text of up to four or five characters, all alignments and break modes, points and millimetres",
  "Tests check only that the calls return no error; a line lost or drawn outside depends on the exact width and height of the rectangle.",
  ["gopdf.go", "cache_content_text.go"], [("several lines", "gopdf.go: MultiCell, IsFitMultiCell, MultiCellWithOption")])
p("C16", "A protected document opened with its password is the plain document",
  "With protection on, every string and every stream of the document (content, fonts, images and their palettes, masks, titles, links) is encrypted with its own object's key, so that a reader applying the standard algorithm with the user password gets exactly the document that the same calls make without protection. The encryption dictionary carries the requested permissions and the owner and user entries of the standard algorithm for the given passwords, an absent owner password included.",
  ["inputs", "configurations", "programs"], "every drawing call of the vocabulary (thorough: every pair), all image colour types with and without masks, symbolic passwords and permission bits, titles and link targets with arbitrary bytes",
  "The existing test only writes a protected file; a stream or string left in clear, or encrypted with another object's number, is noticed only by decrypting every object.",
  ["pdf_protection.go", "encryption_obj.go", "content_obj.go", "image_obj.go", "annot_obj.go", "outlines_obj.go", "pdf_dictionary_obj.go", "unicode_map.go"], [("keys and entries", "pdf_protection.go"), ("encrypting writers", "every IObj write method")])
p("C18", "An embedded image has exactly the file's size, colours and samples",
  "A PNG of any colour type, size and division into chunks, or a JPEG, comes out as an image of the file's own width, height, bit depth, colour space, palette and transparent colour with exactly its pixel samples (or its bytes, for JPEG); an alpha channel becomes a soft mask with its values, pixel for pixel. Unsupported or damaged files give an error, never a crash or other pixels.",
  ["inputs", "fault_sequences"], "every colour type and bit depth, any sizes, palette, transparent colour and samples, all five row filters, any cut into data chunks and empty chunks, every JPEG component count and marker order, every truncation and every value of each header field",
  "The tests embed a few intact pictures and never look at the pixels; unusual chunks, filters and depths need their own files.",
  ["image_obj_parse.go", "image_obj.go", "smask_obj.go", "device_rgb_obj.go"], [("PNG and JPEG reading", "image_obj_parse.go: parsePng, parseImgJpg"), ("alpha channel", "image_obj_parse.go: parsePng"), ("writing", "img_info.go, image_obj.go: write")])
p("C20", "Links and outline entries lead to the place given, in one well-formed tree",
  "Every link is one annotation of the page and rectangle it was put on and leads to exactly its address, or to the page and height where its anchor was set last, before or after the link. The outline is a single tree that holds every entry once, with its title, page and height, in the order given and below the entries given, with chains and counts that agree.",
  ["inputs", "histories"], "every tree of up to four nodes over several pages in creation or reversed order, entries added before and after, any titles, heights and addresses, every sequence of three to four pages, links, anchors and drawings, repeated output",
  "Viewers repair or hide broken chains, and no test reads links or outlines back.",
  ["outlines_obj.go", "annot_obj.go", "gopdf.go", "page_obj.go"], [("outline tree", "outlines_obj.go: AddOutline, Parse, write"), ("links and anchors", "gopdf.go: AddInternalLink, AddExternalLink, SetAnchor; annot_obj.go")])
p("C24", "Everything lands on the current page, in that page's own coordinates",
  "Pages appear in the order they were added, each with its own size and trim box or the document's, and hold exactly what was drawn and linked while they were current, also after going back to any page. A page break happens exactly when a height does not fit above the bottom margin; header and footer run once per new page and leave the position at the margins.",
  ["histories", "inputs"], "every sequence of five to six additions of pages, drawings, links and changes of the current page, any page sizes, margins, positions and heights, headers and footers set at any time, any boxes",
  "Only particular orders of adding, going back and drawing put content on another page; tests only check that a file comes out.",
  ["gopdf.go", "page_obj.go", "content_obj.go", "pages_obj.go"], [("current page", "gopdf.go: AddPageWithOption, SetPage, getContent, prepare"), ("page breaks", "gopdf.go: SetNewY, SetNewYIfNoOffset, SetNewXY"), ("sizes and boxes", "page_obj.go: write")])
p("C25", "Lines, areas and text are painted in the colours and line style set last",
  "Every line is stroked in the stroke colour, width and dashes set last on its page, every area is filled in the fill colour set last, and every text has the text colour set last (or, without one, the fill colour). Saving and restoring the graphics state brings back exactly what was set; nothing that is drawn changes the colours of something else; colour spaces keep their name and colour.",
  ["histories", "inputs"], "every pair (and every sequence of four) of setters, save, restore, new page and drawing calls, followed by one drawing of each kind, any colour components, widths and dashes, colour space names with any character",
  "State leaks from one call into the next; only particular orders of setters and drawings show it.",
  ["gopdf.go", "content_obj.go", "cache_contact_color_rgb.go", "cache_content_text_color_rgb.go", "cache_content_text.go", "color_space_obj.go"], [("setters", "content_obj.go: appendColor..."), ("text colour", "cache_content_text.go: write"), ("colour spaces", "color_space_obj.go, gopdf.go: SetColorSpace")])
p("C26", "Text, borders and underlines sit where their cell's options say",
  "In a cell of any size text is placed left, centred or right by its real width, and top, middle or bottom by its font's ascender and descender; a justified line is stretched evenly at the gaps between its words so that it fills the cell. Each border asked for, and no other, is the corresponding edge of the cell with the current line width, and an underline follows its text wherever that is drawn.",
  ["inputs", "configurations"], "every cell size and position, font metric and character width, all alignments, all sixteen border sets, several font sizes, with and without kerning and character spacing, points and millimetres",
  "Tests do not look at positions inside cells; alignment errors depend on the font's metrics and on combinations of options.",
  ["cache_content_text.go", "gopdf.go", "cell_option.go"], [("alignment", "cache_content_text.go: calX, calY, justifyAdjustment"), ("borders and underline", "cache_content_text.go: drawBorder, underline")])
p("C30", "Every placement shows the image and the mask it was given",
  "Each image drawn shows the picture handed over in that call, with the mask of that call (or, without one, with its own alpha channel), at the size given or else at its own size; the same picture used again in the same way is embedded only once. This holds whatever was drawn before: other pictures, the same picture with another mask, or the same picture as a mask.",
  ["histories", "inputs"], "every sequence of two (and of a vocabulary three) placements of two pictures with and without alpha channel, each plain, with a mask, as a mask or with transparency, with any identifiers, sizes given or not",
  "Images are cached by identifier and by use; only particular sequences of uses reach an entry made for another use.",
  ["gopdf.go", "image_holder.go", "cache_content_image.go", "image_obj.go"], [("image cache", "gopdf.go: imageByHolder, maskHolder, createTransparencyXObjectGroup"), ("placement", "cache_content_image.go")])
p("C17", "What the caller hands over stays the caller's, unchanged and independent",
  "Rectangles, boxes, points, dash arrays, options, transparencies, texts, font and image bytes and configurations passed to a call are not changed by it or by writing the document. What the caller does with them after the call, and with the slices and bytes that calls return, has no influence on the document. (Font data is read again when the document is written, so it has to stay as it is; everything else is taken over at the call.)",
  ["histories", "inputs"], "every pair (thorough: triple) of seventeen kinds of calls that take pointers, slices or bytes, with any values, in two documents of which one has its arguments overwritten right after each call",
  "Output happens long after the call; a pointer that is kept shows only when the caller uses the same variable for something else in between.",
  ["gopdf.go", "cell_option.go", "page_option.go", "pdf_protection.go", "image_holder.go", "cache_content_image.go", "cache_content_polygon.go", "rect.go"], [("copying arguments", "gopdf.go: Cell..., ImageByHolderWithOptions, Polygon, AddPageWithOption"), ("configuration", "gopdf.go: Start")])
p("C19", "Transparency and blend mode apply to what was drawn under them only",
  "Everything drawn while a transparency is set, or given one in its own options, is painted with exactly that alpha value (fill and stroke) and blend mode, and nothing else is: not what comes before, after clearing it or without one. Invalid alpha values and blend modes are errors.",
  ["histories", "inputs"], "every drawing call under any transparency, and every two settings (none, any alpha and blend mode, new page) with a drawing call between and after them, each with or without a transparency of its own",
  "Graphics states are shared, cached by value and switched on per drawing; a leak needs a particular order of settings, equal values and calls.",
  ["transparency.go", "ext_g_state_obj.go", "gopdf.go", "content_obj.go", "cache_content_oval.go", "cache_contnent_curve.go", "cache_content_rectangle.go", "cache_content_polygon.go", "cache_content_text.go"], [("transparency cache", "transparency.go; gopdf.go: saveTransparency, SetTransparency"), ("graphics states", "ext_g_state_obj.go"), ("drawing", "cache_content_*.go: write")])
p("C22", "A placeholder shows the last text filled in, at its own place and style",
  "A placeholder takes up exactly its width, and every placeholder of a name shows the text its name was filled with last: on its own page and line, aligned in its width by the text's real width, in the font, size, spacing and colour that were set where it was placed. Filling moves nothing and changes nothing else, and only names that exist can be filled.",
  ["histories", "inputs"], "every sequence of three to four (thorough: five) placeholders, fillings, changes of font size, spacing and colour, and pages, of two names, any position and width, points and millimetres",
  "The tests fill one placeholder once; filling again, several of one name, other settings in between and other units are not covered by them.",
  ["placeholder.go", "gopdf.go", "cache_content_text.go"], [("placing and filling", "gopdf.go: PlaceHolderText, FillInPlaceHoldText"), ("text", "cache_content_text.go")])
p("C23", "A table has its cells, texts, styles and borders where its layout says",
  "Every cell of a table, header and empty rows included, is at its column's and row's place with the fill, borders, font, text colour and alignment of its style, each text inside its own cell and not covered; the outer borders enclose all rows and the header exactly. Rows with more cells than columns and fonts that are not loaded are errors.",
  ["inputs", "configurations"], "tables of up to two columns and three rows with fewer and more rows than asked for, any position, widths, height and colours, any set of borders and line width in each style, all alignments, points and millimetres",
  "The tests only draw tables into a file; positions of cells and the extent of borders are never read back.",
  ["table.go", "gopdf.go"], [("layout", "table.go: DrawTable, drawCell"), ("borders", "table.go: drawBorder, drawTableAndHeaderBorder")])
p("C15", "Arabic text is shaped and ordered as Unicode's joining rules say",
  "In Arabic text every letter takes the isolated, initial, medial or final form that the letters next to it ask for (marks are transparent, hamza joins to nothing, some letters join only to the one before), lam followed by alef, with or without hamza above, is one ligature, and the ligature of the name of God replaces only letters that stand unjoined. The whole is in right-to-left display order, each letter's marks stay with it (a vowel with its shadda combined), and no other character is lost, added or changed.",
  ["inputs"], "any two (thorough: three) characters of the Arabic block, Latin letters, digits and marks, any character between two representatives, and six (thorough: seven) letters and marks of every joining kind; lam with alef madda or hamza below and text already in presentation forms are left out",
  "The tests shape a few phrases; a wrong form, a lost mark or a wrongly placed ligature shows only for particular neighbours.",
  ["arabic_helper.go", "arabic_alphabet.go"], [("shaping", "arabic_helper.go: ToArabic, Reverse, SmashGlyphs"), ("forms", "arabic_alphabet.go")])
p("C21", "Text is measured and shown in the font, style and size selected last",
  "Exactly the fonts that were added can be selected, by their family and style spelled in any order and case, and text is measured and shown in the one selected last at the size set last, with its own glyphs, widths and metrics, also on later pages and whether it came from data, a reader or a font container. A call that fails changes nothing, and text is underlined exactly when the style asked for it.",
  ["histories", "inputs"], "every sequence of adding, selecting, resizing, drawing and paging of two families and four styles, every spelling of a style, any size, fonts from data, readers and containers",
  "The tests use one font and style; a mix-up shows only when several fonts and failing selections follow each other.",
  ["gopdf.go", "font_container.go", "font_option.go", "procset_obj.go", "subfont_descriptor_obj.go", "strhelper.go"], [("selecting", "gopdf.go: SetFontWithStyle, SetFontSize, setSubsetFontObject"), ("resources", "procset_obj.go"), ("descriptor", "subfont_descriptor_obj.go")])
p("C29", "Documents do not influence each other, even when they share fonts",
  "A document is the same bytes whether it is made alone or while other documents are being made and written with calls in between, including documents with different units, sizes, protection, fonts and colours, and documents that take their fonts from the same container. Package-level pools, caches and page sizes carry nothing over.",
  ["schedules", "histories", "inputs"], "every interleaving of the calls of two documents (each up to five calls after its start) in one goroutine, every choice of calls of a vocabulary, any coordinates, fonts from data or from one shared container; interleavings inside a call are left out",
  "Every test makes its documents one after the other; shared state shows only when calls alternate.",
  ["font_container.go", "gopdf.go", "buffer_pool.go", "page_sizes.go", "subset_font_obj.go"], [("shared fonts", "font_container.go; gopdf.go: AddTTFFontFromFontContainer"), ("pools", "buffer_pool.go"), ("page sizes", "page_sizes.go")])
p("C27", "Imported pages appear whole, each its own, at the place and size asked for",
  "A page imported from another document becomes a form with that page's content, box and resources (fonts, images, graphics states and all they refer to) unchanged, in a well-formed file. Wherever a template is used it shows its own page, upright, at the position and in the size given (or, where a length is left out, in the page's own proportions) on the page current then, however many pages and sources were imported in whatever order; importing all pages of a source gives one page for each, in order and size.",
  ["inputs", "histories", "schedules"], "every position, size and page size, in several units, whole pages and trim boxes, sources with text, images and transparency, every order of three (thorough: four) imports from two sources with other calls between, streams freed or replaced after their call; all pages of a source have one size",
  "The existing test imports one file; a wrong template, name or object number shows only with several sources and other objects between.",
  ["gopdf.go", "imported_obj.go", "cache_content_imported_object.go", "procset_obj.go", "content_obj.go"], [("importing", "gopdf.go: ImportPage, ImportPageStream, ImportPagesFromSource, ImportObjects, ImportTemplates"), ("drawing", "gopdf.go: UseImportedTemplate; cache_content_imported_object.go"), ("writing", "imported_obj.go")])
p("C28", "Compression changes how content is stored, never the content",
  "Whatever compression level is set, also one out of range (which means the nearest or default level), and at whatever moment between calls it is set, a document is well-formed and every page's content, decoded, equals the content made with the same calls without compression. A content stream is compressed at the level in force and its dictionary names the filter exactly when it is compressed, in plain and protected documents alike.",
  ["inputs", "histories"], "every level from -4 to 11, set before or between any calls of a vocabulary, any coordinates, plain and protected documents",
  "Tests write documents at the default level and never decode them.",
  ["content_obj.go", "gopdf.go"], [("levels", "gopdf.go: SetCompressLevel, SetNoCompression"), ("storing content", "content_obj.go")])
p("C31", "Document information is stored exactly as given",
  "Every text of the document information, with any characters, comes back out of the written file exactly as given, in plain and protected documents, whenever it was set before the output, a later setting replacing the earlier one and texts not given being absent. The creation date is written as a PDF date that denotes the moment given, with its zone in hours and minutes.",
  ["inputs", "histories"], "texts of up to three (thorough: five) arbitrary characters in every entry, settings before and after pages and outputs, dates with every day, time and zone offset of bounded months and years",
  "The existing test sets one ASCII text in one zone and does not read it back.",
  ["gopdf.go", "pdf_info_obj.go"], [("setting", "gopdf.go: SetInfo, GetInfo"), ("writing", "gopdf.go: writeInfo, encodeUtf8, infodate")])
p("C32", "Calls in any order, also without what they need, never crash or spoil the file",
  "On a new document any sequence of calls, in any order and also without what the calls need (no page yet, no font selected, names that were never registered), either works or returns an error, and never crashes. The document can still be written afterwards, as a well-formed file whose references all lead to objects.",
  ["histories", "inputs"], "every sequence of two (thorough: three) calls out of 75 kinds of call covering drawing, text, fonts, pages, links, outlines, tables, images and settings, with any coordinates and sizes, starting at a document without pages or fonts",
  "The tests call everything in the right order.",
  ["gopdf.go", "subset_font_obj.go", "annot_obj.go", "outlines_obj.go", "content_obj.go", "table.go"], [("pages and links", "gopdf.go: addLink, SetAnchor, AddOutline"), ("text without a font", "gopdf.go; subset_font_obj.go: AddChars")])
