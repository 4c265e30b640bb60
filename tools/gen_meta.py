#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json (run by hand after editing; not run by any check).
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, level_note, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     observe_at=observe or ["bytes written by Save/SaveTo"], hook_needed=None), _note=level_note))

prop("C01", "A saved file has an exact cross-reference table, trailer and startxref",
 "Whatever was done to a document, the file it is saved to gives, for every object number, either the exact byte offset at which that object starts or a free entry linked into the free list, in entries of exactly 20 bytes. /Size is one more than the highest object number, /Root names the document's catalog, startxref is the exact offset of the table, and every stream's /Length is the exact number of bytes up to its end.",
 ["inputs", "histories"], "all documents and all sequences of edits before a save, protected or not",
 "The tests save a few sample files and never read the result back; a wrong offset for some object number, gap in numbering or offset length passes them.",
 ["pdft.go", "pdf_data.go"], [("object writing loop", "pdft.go toStream"), ("table, free list, trailer", "pdft.go xref"), ("10-digit offsets", "pdft.go formatXrefline")],
 "formatXrefline, xref proved in full; toStream proved for unprotected documents (text of the whole file as a function of the object list); protected documents and stream lengths bounded.")
prop("C02", "New objects get fresh numbers and every link resolves",
 "Every object the library adds to a document (fonts and their parts, images, masks, palettes, content, encryption) has a number no other object has, and no object of the original is lost or overwritten by it. Every reference in the saved file resolves, and the references between the added objects lead to the object that is meant.",
 ["inputs", "histories"], "all documents, including ones with gaps in the numbering, and all combinations of fonts, images and contents",
 "Tests add at most one font and look at no object numbers; collisions need gaps, several fonts, or masks next to fonts.",
 ["pdft.go", "pdf_data.go", "pdf_font_data.go"], [("highest number in use", "pdf_data.go maxID"), ("append with a fresh number", "pdf_data.go putNewObject, put"), ("numbers of the parts of a font", "pdf_font_data.go build"), ("numbering in build", "pdft.go build")],
 "maxID, put, putNewObject and the lookup/removal functions proved; links through rendered text bounded.")
prop("C03", "Page operations do exactly what they say and refuse bad page numbers",
 "Removing a page, keeping only one page, and duplicating a page after a position give exactly the resulting sequence of pages, in order, with their attributes and sizes, for every page number and position that exists, counted in the flattened page tree. A number or position outside the document (zero and negative numbers too, except that a negative position counts from the end) is refused with the error for that operation and changes nothing, and the reported page count always matches.",
 ["inputs", "histories"], "all page trees, page numbers, positions, and sequences of operations",
 "Tests try one removal or duplication on one file; boundary numbers, nested trees and sequences are not reached.",
 ["pdft.go", "pdf_data.go", "pdf_obj_property_data.go"], [("operations", "pdft.go RemovePage, RemoveOtherPages, DuplicatePageAfter, setPages"), ("page tree walk", "pdf_data.go getPageObjIDs"), ("sizes", "pdf_parse.go parsePageSize")],
 "", observe=["GetNumberOfPage", "errors", "pages of the saved file"])
prop("C04", "Breaking and wrapping text loses nothing and keeps lines within the width",
 "The basic text breaker splits any text into pieces that joined together are the text again. Wrapped text shows all characters of the text in order, apart from white space at line ends, on lines that break only between pieces and only where the next piece would not fit, so that no line is wider than asked unless it is a single piece.",
 ["inputs"], "all texts, widths, fonts, kerning functions and text breakers",
 "The test breaks two fixed sentences; nothing measures lines.",
 ["textbreak/basic_textbreak.go", "pdft.go"], [("breaker", "textbreak/basic_textbreak.go BreakTextToToken"), ("line filling", "pdft.go InsertWrapText")],
 "", observe=["tokens returned", "text drawn on the page"])
prop("C05", "Text is shown as its own glyphs in order; measured width is the sum of advances",
 "Text inserted on a page is shown as exactly the glyphs of its characters, in order, in the font and size current at the time, with the kerning and text rise the override functions ask for between and at the right characters. The measured width of a text is the sum of its glyphs' advances plus that kerning, scaled to the font size.",
 ["inputs", "configurations"], "all texts, fonts, sizes, kerning and text-rise functions",
 "Tests draw fixed strings and compare nothing of the content written.",
 ["minigopdf/cache_content_text.go", "minigopdf/subset_font_obj.go", "minigopdf/content_obj.go", "content_text.go", "pdft.go"], [("codes, kerning, rise, width", "minigopdf/cache_content_text.go createContent"), ("kerning lookup and override", "minigopdf/cache_content_text.go kern"), ("glyph widths", "minigopdf/subset_font_obj.go GlyphIndexToPdfWidth")],
 "", observe=["content streams of the saved file", "MeasureTextWidth"])
prop("C06", "Text sits where cell and alignment say, in its colour, border and underline",
 "The position of inserted text is the one its cell, its alignment (left, center, right; top, middle, bottom), its measured width and the font's ascent and descent give on a page of that page's own height, for each line of wrapped text too. It has the colour asked for (black if none), an underline exactly when the style asks for one, and a frame around its cell exactly while borders are switched on.",
 ["inputs", "configurations"], "all cells, alignments, page sizes, fonts, colours and styles",
 "Tests never read a coordinate or colour back.",
 ["minigopdf/cache_content_text.go", "content_text.go", "pdft.go"], [("x and y", "minigopdf/cache_content_text.go calX, calY"), ("frame, underline", "minigopdf/cache_content_text.go drawBorder, underline"), ("colour, border choice", "content_text.go toSteram"), ("lines", "pdft.go InsertWrapText")],
 "", observe=["content streams of the saved file"])
prop("C07", "Every character maps to the glyph the font's character map names",
 "For every font and character the glyph used is the one the font's character map gives (segment deltas, glyph arrays and missing entries in the 16-bit map; groups with both ends included above U+FFFF). A character up to U+FFFF the font lacks becomes the missing-glyph, one above is reported as an error and nothing is drawn, and characters already seen keep their glyph.",
 ["inputs"], "all fonts and characters",
 "Tests use one font and a handful of characters.",
 ["minigopdf/subset_font_obj.go", "minigopdf/map_of_character_To_glyph_index.go", "minigopdf/fontmaker/core/ttfparser.go"], [("16-bit map", "minigopdf/subset_font_obj.go charCodeToGlyphIndexFormat4"), ("groups", "minigopdf/subset_font_obj.go charCodeToGlyphIndexFormat12"), ("memory of characters", "minigopdf/map_of_character_To_glyph_index.go")],
 "")
prop("C08", "The embedded font program is a valid subset with every needed glyph intact",
 "The font program embedded for a used font is a well-formed TrueType file: sorted table directory, correct offsets, lengths and checksums, all needed tables unchanged. Each glyph used in the document, and each component it is built from at any depth, has the outline of the original font, and every other glyph is empty or unchanged.",
 ["inputs"], "all fonts (short and long offsets, composite glyphs, table sizes) and all sets of characters",
 "Tests embed one font and never look at the program.",
 ["minigopdf/pdf_dictionary_obj.go", "minigopdf/buff_write.go", "minigopdf/buff.go"], [("glyph and offset tables", "minigopdf/pdf_dictionary_obj.go makeGlyfAndLocaTable"), ("directory", "minigopdf/pdf_dictionary_obj.go makeFont"), ("closure", "minigopdf/pdf_dictionary_obj.go completeGlyphClosure"), ("checksum", "minigopdf/pdf_dictionary_obj.go CheckSum")],
 "")
prop("C09", "Widths, ToUnicode and font descriptor agree with the font and the text",
 "For every glyph used, the width in the saved file is the font's own advance in thousandths of an em, and the ToUnicode map turns its code back into a character it was used for (as UTF-16, surrogate pairs above U+FFFF). The font descriptor carries the font's own ascent, descent, heights, angle and bounding box, scaled.",
 ["inputs"], "all fonts and texts",
 "Tests never read these objects back.",
 ["minigopdf/cid_font_obj.go", "minigopdf/unicode_map.go", "minigopdf/subfont_descriptor_obj.go", "minigopdf/subset_font_obj.go"], [("widths", "minigopdf/cid_font_obj.go build"), ("ToUnicode", "minigopdf/unicode_map.go pdfToUnicodeMap"), ("descriptor", "minigopdf/subfont_descriptor_obj.go build")],
 "")
prop("C10", "Embedded images keep their pixels, palette and transparency",
 "An inserted PNG (gray, RGB, palette, with alpha or colour key, any bit depth the library accepts) or JPEG decodes from the saved file to exactly the pixels, palette and transparency of the original, at its own width and height.",
 ["inputs"], "all images of the supported kinds",
 "Tests insert a few sample files and do not decode the output.",
 ["minigopdf/image_obj_parse.go", "minigopdf/image_obj.go", "minigopdf/smask_obj.go", "minigopdf/device_rgb_obj.go"], [("PNG reading and alpha split", "minigopdf/image_obj_parse.go parsePng"), ("image object", "minigopdf/image_obj.go build"), ("mask object", "minigopdf/smask_obj.go")],
 "")
prop("C11", "Images are placed as asked under names of their own, existing resources stay",
 "Each inserted image is drawn on its page with its lower left corner at x and page height minus y minus h, scaled to w by h, and the name it is drawn by leads to that very image. Names never collide with those the page already uses, everything the page had in its resources is still there under its old name, and an image inserted with the cache is embedded once.",
 ["inputs", "histories"], "all documents (inherited, shared, direct and referenced resources), images, positions and mixes of the three ways to insert",
 "Tests place images on one or two sample files and look at nothing.",
 ["content_img_base64.go", "pdf_data.go", "crawl_result_x_object.go", "pdft.go"], [("drawing operator", "content_img_base64.go toSteram"), ("names", "pdf_data.go injectImgsToPDF, crawl_result_x_object.go"), ("resources", "pdf_data.go editResources"), ("cache", "pdft.go InsertImgWithCache")],
 "")
prop("C12", "A protected file opens with its passwords and decrypts to the same document",
 "A document saved with protection opens with the user password and with the owner password, and with no other, and states exactly the permissions asked for. Every stream decrypts to what it would be without protection, byte for byte, no stream is left in clear, and the caller's passwords are not altered.",
 ["inputs", "configurations"], "all passwords (any bytes, any length), permissions and documents",
 "One test checks a derived key for one password; no test opens a protected file.",
 ["minigopdf/pdf_protection.go", "minigopdf/encryption_obj.go", "pdf_obj_data.go", "pdft.go"], [("keys", "minigopdf/pdf_protection.go createOValue, createUValue, objectkey"), ("encryption dictionary", "minigopdf/encryption_obj.go build, escape"), ("stream encryption", "pdf_obj_data.go encrypt")],
 "")
prop("C13", "Content goes to its page, after the original; other pages stay as they are",
 "What is inserted on a page shows on that page only, in the order of the calls, after all of the page's original content, which is preserved byte for byte whether it is one stream or several, compressed or not, shared with other pages or missing. Pages nothing is inserted on keep their content exactly.",
 ["inputs", "histories"], "all documents and sequences of insertions",
 "Tests insert on page 1 of simple files and do not read content back.",
 ["pdf_data.go", "pdft.go"], [("merging", "pdf_data.go injectContentToPDF"), ("shared streams", "pdf_data.go unshareContents"), ("extracting", "pdf_data.go extractStream, streamLength, isFlateDecode; pdf_obj_data.go trimStreamEOL")],
 "")
prop("C15", "Saving is repeatable and leaves the document as it was",
 "Saving a document, to a file or to a writer, any number of times, gives the same document each time, and what is inserted between saves appears in the later ones exactly once. A write that fails is reported as an error and the document can still be saved.",
 ["histories", "fault_sequences"], "all sequences of edits and saves, including failing writers",
 "Every test saves once.",
 ["pdft.go", "pdf_data.go", "pdf_font_data.go"], [("copy before injection", "pdft.go build"), ("buffers reset", "minigopdf/*_obj.go build"), ("writing", "pdft.go SaveTo, Save")],
 "", observe=["bytes of successive saves", "errors"])
prop("C17", "Template fields: text and images land where the field says",
 "Setting a field by key draws the text in the field's font and size, at its page, position, size and alignment, wrapped when the field says so, and an image in the field's rectangle; when a key is defined twice the last definition counts. An unknown key draws nothing and is no error; a field whose font is not available is an error and draws nothing.",
 ["inputs", "configurations"], "all field lists, keys, texts and templates",
 "The one test draws the design view of one template and checks nothing.",
 ["render/render.go", "render/field_info.go"], [("fields by key", "render/field_info.go toMap"), ("drawing", "render/render.go Text, ImgBase64, ShowDesignView")],
 "")
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        q = dict(p); q.pop("_note"); f.write(json.dumps(q, ensure_ascii=False) + "\n")
tech = "contract-based deductive verification: contracts on the real functions, obligations generated from /repo's go/ssa on every run and discharged by z3/cvc5; bounded replay harness for functions out of reach"
generic = "Obligations of the functions under contract (listed in the evidence) are proved for all inputs; what lies outside them is covered by a bounded random harness against an independent reader, labelled bounded in the evidence and not counted as proved. Assumes mathematical 64-bit ints, floats as reals, partial correctness, trusted stdlib models."
m = dict(version=1, setup_cmd="mkdir -p bin && cd gov && GOFLAGS= GOPROXY=off GOTOOLCHAIN=local go build -o ../bin/gov .",
  checks=[dict(property=p["id"], quick_cmd="./check.sh " + p["id"], thorough_cmd="VERIF_TIER=thorough ./check.sh " + p["id"], evidence_file="evidence/%s.json" % p["id"],
     technique=tech, level="proof", level_note=((p["_note"] + " ") if p["_note"] else "") + generic) for p in P],
  not_applicable=[],
  notes="No hooks: contracts live in /verif/contracts and are bound to the functions of /repo by name; harness files are compiled in through go test -overlay. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
