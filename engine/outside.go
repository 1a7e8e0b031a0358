package main

// What the checks do not cover, for the evidence (see DESIGN.md for the reasons).
const outsideAll = "Longer inputs, deeper nestings and more steps than the stated bounds; inputs not formed from the stated pieces and alphabets."

var outside = map[string]string{
	"C01": "Running time below the step limit; invalid UTF-8. ",
	"C02": "Invalid UTF-8. ",
	"C03": "Paragraph markers next to lines consisting of a single token. ",
	"C04": "Links with an empty display text. ",
	"C06": "The meaning of template results (they are symbolic words). ",
	"C08": "Attributes other than spans (dropped by design). ",
	"C09": "Headings deeper than seven. ",
	"C10": "References nested in references. ",
	"C11": "Several size options of one image; invalid UTF-8 in names. ",
	"C12": "Length limits of the file system. ",
	"C13": "Power loss (a crash ends the process, what the operating system has accepted persists); rename is atomic. ",
	"C14": "More than one other operation at the same time. ",
	"C15": "Fractions of seconds. ",
	"C16": "Behaviour within net/http. ",
	"C17": "Names with NUL or called '', '.' and '..'; the JSON grammar itself (answers are chosen from shapes with symbolic strings). ",
	"C18": "Intermediate configurations that are invalid on their own; relative paths on the command line. ",
	"C19": "Whether the files and programs named in a configuration work. ",
	"C20": "Switches between goroutines at other points than synchronisation operations (for data races see C33); the e-book library. ",
	"C21": "Combining characters, invalid UTF-8. ",
	"C22": "NUL characters; programs given to the converters beyond name, arguments and exit status. ",
	"C23": "XML beyond the shapes generated; one absolute and one relative size at once (several results accepted). ",
	"C24": "Escaping of HTML characters in texts (intentionally not done). ",
	"C25": "Cache folders with blanks. ",
	"C27": "A crash between downloading an image and processing it; the e-book library; renewed math images of the template converter. ",
	"C28": "nowiki tags nested in nowiki tags; escaping of HTML characters (intentionally not done). ",
	"C29": "Paragraphs within list items, captions and headings. ",
	"C30": "What a failing run leaves behind; files the e-book generators themselves create; cache folders containing files of the user. ",
	"C31": "Which mark-up is put around the words (other properties); links within links, references within references, templates whose result contains template calls. ",
	"C33": "Accesses within libraries (the logging library has a race of its own on its trace ID); files as shared data (C13, C14, C20); the order of lock operations is that of the explored schedules. ",
	"C32": "Whether the pages are valid XHTML; the e-book library itself (the symbolic runs use a model of it, the replays the library); licence and date of the metadata (not supported by the driver). ",
}
