// Random documents of the GraphQL grammar (June 2018) as token sequences with the tree they spell
// out, and an independent recogniser of the same grammar.
#pragma once

#include "gentext.h"

namespace h {

struct Tok
{
	std::string text;
	enum Kind
	{
		Punct,
		Word,
		Number,
		Str
	} kind
		= Punct;
	size_t offset = 0; // after rendering
};

// Expected node of the parse tree.
struct GNode
{
	std::string type;
	size_t first = 0; // first token
	size_t last = 0;  // past the last token
	bool afterPrevious = false; // may begin right after the previous token
	size_t skip = 0;			// bytes of its first token which are not part of it
	bool leaf = false;			// its text is exactly its tokens
	std::string decoded;		// of strings
	std::vector<GNode> children;
};

struct GDoc
{
	std::vector<Tok> tokens;
	std::vector<GNode> definitions;
	std::string text;
	bool typeSystem = false;
	bool executable = false;
};

enum class DocKind
{
	Executable,
	TypeSystem,
	Mixed
};

// Decodes a string or block string token on its own terms (the reference for both).
std::string blockStringValue(const std::string& raw);

struct StringLiteral
{
	std::string text;	 // source form, with quotes
	std::string decoded; // what it denotes
	bool interesting = false;
};
StringLiteral genStringLiteral(Src& src, bool allowBlock = true);
std::string genIntLiteral(Src& src);
std::string genFloatLiteral(Src& src);

GDoc genDocument(Src& src, DocKind kind, size_t maxDefinitions);
// Fills in text and offsets. Mode 0: minimal separators; 1: single spaces; 2: random ignored tokens.
void render(Src& src, GDoc& doc, int mode);

enum class Verdict
{
	Accept,
	Reject,
	Either
};

// Does the text belong to the grammar of documents with definitions of every kind?
// Reports the byte offset at which the recogniser gave up.
Verdict recognise(const std::string& text, size_t* errorOffset = nullptr);

} // namespace h
