// The tree of a request document as text.
#include "genclient.h"

#include "graphqlservice/GraphQLParse.h"
#include "graphqlservice/internal/Grammar.h"
#include "graphqlservice/internal/SyntaxTree.h"

using namespace graphql;

namespace h {

namespace {

using IsType = bool (*)(const peg::ast_node&);

template <typename T>
bool isType(const peg::ast_node& n)
{
	return n.is_type<T>();
}

#define NODE(name) { #name, &isType<peg::name> }
const std::vector<std::pair<const char*, IsType>> c_nodes {
	NODE(operation_type), NODE(list_value), NODE(object_field_name), NODE(object_field),
	NODE(object_value), NODE(variable_value), NODE(integer_value), NODE(float_value),
	NODE(string_value), NODE(true_keyword), NODE(false_keyword), NODE(null_keyword),
	NODE(enum_value), NODE(field_name), NODE(argument_name), NODE(argument), NODE(arguments),
	NODE(directive_name), NODE(directive), NODE(directives), NODE(variable), NODE(named_type),
	NODE(list_type), NODE(nonnull_type), NODE(default_value), NODE(operation_definition),
	NODE(fragment_definition), NODE(variable_name), NODE(alias_name), NODE(operation_name),
	NODE(fragment_name), NODE(field), NODE(fragment_spread), NODE(inline_fragment),
	NODE(selection_set), NODE(type_condition),
};

void dumpTree(const peg::ast_node& node, std::string& out)
{
	const char* type = "?";
	for (const auto& [name, is] : c_nodes)
		if (is(node))
			type = name;
	out += type;
	// A string is what it denotes, other tokens are their text.
	if (node.is_type<peg::string_value>())
	{
		out += " " + show(JV::string(std::string { node.unescaped_view() })) + "\n";
		return;
	}
	if (node.children.empty())
		for (char c : node.string_view())
			if (c != ' ' && c != '\t' && c != '\n' && c != '\r' && c != ',')
				out += c;
	out += "(";
	for (const auto& child : node.children)
		dumpTree(*child, out);
	out += ")\n";
}

} // namespace

std::string treeOf(const peg::ast& ast)
{
	std::string r;
	for (const auto& child : ast.root->children)
		dumpTree(*child, r);
	return r;
}

} // namespace h
