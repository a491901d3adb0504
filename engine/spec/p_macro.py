M = "crates/vertigo-macro/src/"
WIT = "Decided for the forms written in engine/witness/vp_witness.rs, an application using every form of the macros, which is expanded by the current macro crate and analysed as compiled; a form not written there is not covered."
PROPS = [
dict(id="G01", title="dom! builds exactly the tree that is written",
 statement="What dom! and dom_element! are given becomes exactly that tree: each element under its name with its attributes, its children in the order written, embedded values and text in place, several roots side by side, spread children where they stand, and every handler attached to the event it names, once. The short form {name} means the attribute of that name.",
 over=["inputs"], q="every value embedded in every form of the macro",
 why="Macro tests compare what is rendered for a few fixed trees; two handlers exchanged, or an attribute lost in one form, compile and render the same.",
 files=[M+"html_parser.rs", M+"lib.rs"], mech=[("tree", M+"html_parser.rs")],
 decide="The expansions, as compiled, are summarised symbolically and read back as a tree of element, text, embedded value and handler, which is compared with the tree as written.", note=WIT),
dict(id="G02", title="Components get the values given to them, and defaults otherwise",
 statement="A component used in dom! is mounted once in its place with every value given to it in the field it names, converted where that is asked for, and default values in the others when `..` is given. A function marked #[component] becomes a component whose mounted DOM is what its body returns for those parameters, under the type, parameters and bounds it is declared with.",
 over=["inputs"], q="every value passed to a component",
 why="A parameter exchanged with another of the same type compiles, and shows only in a component using both.",
 files=[M+"component.rs", M+"html_parser.rs"], mech=[("component", M+"component.rs"), ("usage", M+"html_parser.rs")],
 decide="Path summaries of the expanded uses: the receiver of the one mount is compared field by field with what is written; of the expanded component: the body is applied to the fields.", note=WIT),
dict(id="G03", title="AutoJsJson writes and reads back every shape of type",
 statement="A derived type is written as: a record as an object with one property per field under its name (without r#), a newtype as its content, a tuple type as a list of its fields in order, a unit variant as its name, a variant with data as an object with the single property of its name holding a newtype's content, a list or an object. Reading takes exactly these forms, gives each field what was written for it in every order of properties, reports an error for a missing field without a default or an unknown variant, and uses the default where one is declared.",
 over=["inputs"], q="every value of every shape of type, every JSON value",
 why="Tests round-trip a few types with different field types; fields of one type exchanged in a rarely used shape still compile.",
 files=[M+"jsjson/structs.rs", M+"jsjson/enums.rs", M+"jsjson/newtypes.rs", M+"jsjson/tuple_fields.rs", M+"jsjson/mod.rs"], mech=[("records", M+"jsjson/structs.rs"), ("variants", M+"jsjson/enums.rs"), ("tuples", M+"jsjson/tuple_fields.rs")],
 decide="Path summaries of both derived functions for each shape of type; the value encoded on each path is read as a JSON shape over the fields, and the value decoded as fields over that shape; both must agree with one table, and the paths must cover present, missing and of the wrong kind.", note=WIT),
dict(id="G04", title="bind! closures use what was bound, cloned for every call",
 statement="bind!, bind_spawn! and bind_rc! clone each named value once when bound and again for each call, leaving the originals usable, and run the body given with those clones under the names written (the last name of a path) and with the parameters of the call; bind_spawn! spawns the body's future once per call on the driver, and bind_rc! gives a counted closure.",
 over=["histories"], q="every number of calls and every value bound",
 why="A clone skipped or a wrong value bound compiles where types agree, and shows only on a second call or with two values of one type.",
 files=[M+"bind.rs"], mech=[("bind", M+"bind.rs")],
 decide="Path summaries of the expanded closures: clone events when binding and per call with what they clone, and the arguments the body's calls get.", note=WIT),
dict(id="G05", title="css! gives the style that is written, with every parameter in place",
 statement="css! and css_block! give a style whose text is what is written, with each {expression} replaced by its value wherever it stands, literal braces kept, and references to other classes by their generated names; text without expressions is a fixed style.",
 over=["inputs"], q="every value of a parameter",
 why="A parameter used twice, or beside literal braces, comes out wrong for some texts only.",
 files=[M+"css_parser.rs", M+"css.pest"], mech=[("css", M+"css_parser.rs")],
 decide="Path summaries of the expanded styles: the text is flattened to literal pieces and values and compared, up to white space between tokens, with what is written.", note=WIT),
dict(id="G06", title="The application starts once, and browser access is what is written",
 statement="#[vertigo::main] makes an entry point that starts the marked function's application once, after reporting a version of the page script that does not match, and window! and document! make the access written: the root, each property and each call with its arguments in order.",
 over=["inputs", "configurations"], q="every version pair and every access expression",
 why="Tests run natively and never enter the exported function; the version test matters only when script and application differ.",
 files=[M+"main_wrap.rs", M+"api_access.rs"], mech=[("main", M+"main_wrap.rs"), ("access", M+"api_access.rs")],
 decide="Path summaries of the expanded entry point with the version numbers symbolic, and of the access expressions as lists of steps.", note=WIT),
dict(id="G07", title="An included file is published as it is, under the address the macro becomes",
 statement="include_static! takes the file written, beside the source file it is written in; in a release build it copies its whole content to where the build collects included files, wherever the target directory is, under a name with the hash of the content, and becomes the public path followed by that name; a missing file or public path is a compile error.",
 over=["inputs", "configurations"], q="every file and every build environment",
 why="Tests are compiled with debug assertions, where the macro becomes an empty text and does nothing.",
 files=[M+"include_static.rs", M+"wasm_path.rs"], mech=[("include", M+"include_static.rs"), ("files", M+"wasm_path.rs")],
 decide="Path summaries of the macro's own functions, compiled as a release build has them: the file asked for, read and copied as path terms over the source file and the written text, the destination as a list of path pieces for each outcome of each environment variable, compared with where a build looks (F01), and the text returned.", note="The environment variables and the disk are as the functions report them."),
]
