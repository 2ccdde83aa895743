#include "mutate.h"

#include <algorithm>
#include <functional>

namespace h {

namespace {

struct SelSite
{
	std::vector<Sel>* list;
	size_t index;
	std::string scope; // type the selection applies to
	int op;			   // index of the operation, or -1
	int frag;
	size_t depth; // 0: directly in the operation or fragment
	Sel& sel() const
	{
		return (*list)[index];
	}
};

struct ListSite
{
	std::vector<Sel>* list;
	std::string scope;
	int op, frag;
	size_t depth;
};

struct DirSite
{
	std::vector<Dir>* dirs;
	std::string location;
};

struct ValueSite
{
	Val* v;
	TypeRef type;
	bool hasDefault;							// a non-null default at this location
	std::vector<std::pair<std::string, Val>>* members; // of the input object or argument list
	size_t index;
	bool list; // an element of a list
	bool inDirective;
};

struct Sites
{
	std::vector<SelSite> sels;
	std::vector<ListSite> lists;
	std::vector<DirSite> dirs;
	std::vector<ValueSite> values;
};

const TypeDef* inputType(const MSchema& m, const TypeRef& t)
{
	const auto* d = m.type(t.name);
	return d && d->kind == Kind::Input && t.lists.empty() ? d : nullptr;
}

void walkValue(const MSchema& m, Val& v, const TypeRef& type, bool hasDefault, std::vector<std::pair<std::string, Val>>* members, size_t index, bool list, bool inDirective, Sites& out)
{
	out.values.push_back({ &v, type, hasDefault, members, index, list, inDirective });
	if (v.kind == Val::List && !type.lists.empty())
		for (auto& e : v.list)
			walkValue(m, e, type.element(), false, nullptr, 0, true, inDirective, out);
	if (v.kind == Val::Object)
		if (const auto* in = inputType(m, type))
			for (size_t i = 0; i < v.fields.size(); ++i)
				for (const auto& f : in->inputs)
					if (f.name == v.fields[i].first)
						walkValue(m, v.fields[i].second, f.type, f.def && f.def->kind != Val::Null, &v.fields, i, false, inDirective, out);
}

void walkArgs(const MSchema& m, std::vector<std::pair<std::string, Val>>& args, const std::vector<InputDef>& defs, bool inDirective, Sites& out)
{
	for (size_t i = 0; i < args.size(); ++i)
		for (const auto& d : defs)
			if (d.name == args[i].first)
				walkValue(m, args[i].second, d.type, d.def && d.def->kind != Val::Null, &args, i, false, inDirective, out);
}

void walkDirs(const MSchema& m, std::vector<Dir>& dirs, const std::string& location, Sites& out)
{
	out.dirs.push_back({ &dirs, location });
	for (auto& d : dirs)
		if (const auto* def = m.directive(d.name))
			walkArgs(m, d.args, def->args, true, out);
}

void walkSels(const MSchema& m, std::vector<Sel>& sels, const std::string& scope, int op, int frag, size_t depth, Sites& out)
{
	out.lists.push_back({ &sels, scope, op, frag, depth });
	for (size_t i = 0; i < sels.size(); ++i)
	{
		auto& s = sels[i];
		out.sels.push_back({ &sels, i, scope, op, frag, depth });
		walkDirs(m, s.dirs, s.kind == Sel::Field ? "FIELD" : s.kind == Sel::Spread ? "FRAGMENT_SPREAD" : "INLINE_FRAGMENT", out);
		if (s.kind == Sel::Field)
		{
			if (const auto* f = m.field(scope, s.name))
			{
				walkArgs(m, s.args, f->args, false, out);
				if (!s.sub.empty())
					walkSels(m, s.sub, f->type.name, op, frag, depth + 1, out);
			}
		}
		else if (s.kind == Sel::Inline)
			walkSels(m, s.sub, s.cond.empty() ? scope : s.cond, op, frag, depth + 1, out);
	}
}

Sites walk(const MSchema& m, Doc& doc)
{
	Sites r;
	for (size_t i = 0; i < doc.ops.size(); ++i)
	{
		auto& op = doc.ops[i];
		walkDirs(m, op.dirs, op.kind == "query" ? "QUERY" : op.kind == "mutation" ? "MUTATION" : "SUBSCRIPTION", r);
		if ((op.kind == "mutation" && m.mutation.empty()) || (op.kind == "subscription" && m.subscription.empty()))
			continue;
		walkSels(m, op.sels, op.kind == "query" ? m.query : op.kind == "mutation" ? m.mutation : m.subscription, static_cast<int>(i), -1, 0, r);
	}
	for (size_t i = 0; i < doc.frags.size(); ++i)
	{
		walkDirs(m, doc.frags[i].dirs, "FRAGMENT_DEFINITION", r);
		walkSels(m, doc.frags[i].sels, doc.frags[i].cond, -1, static_cast<int>(i), 0, r);
	}
	return r;
}

void reorder(Doc& doc, Src& src)
{
	doc.order.clear();
	for (size_t i = 0; i < doc.ops.size() + doc.frags.size(); ++i)
		doc.order.push_back(i);
	for (size_t i = doc.order.size(); i > 1; --i)
		if (src.coin(1, 3))
			std::swap(doc.order[i - 1], doc.order[src.below(i)]);
}

Sel typenameField()
{
	Sel s;
	s.name = "__typename";
	return s;
}

// A selection of the field with everything it needs.
Sel selectField(Src& src, const MSchema& m, const FieldDef& f)
{
	Sel s;
	s.name = f.name;
	for (const auto& a : f.args)
		if (a.required())
			s.args.emplace_back(a.name, genLiteral(src, m, a.type));
	if (m.composite(f.type.name))
		s.sub.push_back(typenameField());
	return s;
}

std::vector<const FieldDef*> fieldsOf(const MSchema& m, const std::string& scope)
{
	std::vector<const FieldDef*> r;
	const auto* t = m.type(scope);
	if (t && t->kind != Kind::Union)
		for (const auto& f : t->fields)
			r.push_back(&f);
	return r;
}

Val anyLiteral(Src& src)
{
	switch (src.below(5))
	{
		case 0: return Val::integer(1);
		case 1: return Val::string("text");
		case 2: return Val::boolean(true);
		case 3: return Val::null();
		default: return Val::enumeration("SOMETHING");
	}
}

using Path = std::function<std::optional<std::string>()>;

struct Editor
{
	Src& src;
	const MSchema& m;
	Doc& doc;
	std::vector<Frag> fresh;
	Sites sites;

	Editor(Src& s, const MSchema& schema, Doc& d)
		: src(s)
		, m(schema)
		, doc(d)
		, sites(walk(schema, d))
	{
	}

	// Puts the selection somewhere into the selection set: as it is, in inline fragments, or in new
	// named fragments.
	void hide(Sel s, std::vector<Sel>& list, const std::string& scope)
	{
		for (size_t wraps = src.weighted({ 5, 3, 1 }); wraps > 0; --wraps)
		{
			Sel w;
			if (src.coin())
			{
				w.kind = Sel::Inline;
				if (src.coin())
					w.cond = scope;
				w.sub = { s };
			}
			else
			{
				Frag f;
				f.name = cat("Hidden", doc.frags.size(), "_", fresh.size());
				f.cond = scope;
				f.sels = { s };
				w.kind = Sel::Spread;
				w.name = f.name;
				fresh.push_back(f);
			}
			s = w;
		}
		const size_t at = src.below(list.size() + 1);
		list.insert(list.begin() + static_cast<long>(at), s);
	}

	template <typename F>
	std::vector<const SelSite*> where(F&& f)
	{
		std::vector<const SelSite*> r;
		for (const auto& s : sites.sels)
			if (f(s))
				r.push_back(&s);
		return r;
	}

	const FieldDef* def(const SelSite& s)
	{
		return s.sel().kind == Sel::Field ? m.field(s.scope, s.sel().name) : nullptr;
	}

	void add(const std::string& what)
	{
		doc.extra.push_back(what);
	}

	bool apply(const std::string& rule);
};

std::string freshField(Src& src, const MSchema& m, const std::string& scope)
{
	std::vector<std::string> names { "noSuchField", "__schemas", "_typename", "f", "__name" };
	for (const auto& t : m.types)
		for (const auto& f : t.fields)
			names.push_back(f.name);
	for (int i = 0; i < 20; ++i)
	{
		const auto& n = src.pick(names);
		if (!m.field(scope, n) && n != "__schema" && n != "__type")
			return n;
	}
	return "noSuchField";
}

bool Editor::apply(const std::string& rule)
{
	const auto field = [&](const SelSite& s) { return s.sel().kind == Sel::Field; };
	if (rule == "unknown field")
	{
		const auto c = where([&](const SelSite& s) { return field(s) && s.sel().name != "__typename"; });
		if (!c.empty() && src.coin())
		{
			const auto* s = src.pick(c);
			if (s->sel().alias.empty() && src.coin())
				s->sel().alias = s->sel().name;
			s->sel().name = freshField(src, m, s->scope);
			if (src.coin())
				s->sel().args.clear();
			return true;
		}
		const auto& l = sites.lists[src.below(sites.lists.size())];
		Sel s;
		s.name = freshField(src, m, l.scope);
		if (src.coin())
			s.alias = "unknownField";
		if (src.coin(1, 3))
			s.sub.push_back(typenameField());
		hide(s, *l.list, l.scope);
		return true;
	}
	if (rule == "field on a union")
	{
		std::vector<const ListSite*> c;
		for (const auto& l : sites.lists)
			if (const auto* t = m.type(l.scope); t && t->kind == Kind::Union)
				c.push_back(&l);
		if (c.empty())
			return false;
		const auto& l = *src.pick(c);
		const auto possible = m.possible(l.scope);
		const auto fields = fieldsOf(m, src.pick(possible));
		Sel s = selectField(src, m, *src.pick(fields));
		s.alias = "onUnion";
		hide(s, *l.list, l.scope);
		return true;
	}
	if (rule == "introspection below the root")
	{
		std::vector<const ListSite*> c;
		for (const auto& l : sites.lists)
			if (l.scope != m.query || m.noIntrospection)
				c.push_back(&l);
		if (c.empty())
			return false;
		const auto& l = *src.pick(c);
		Sel s;
		if (src.coin())
			s.name = "__schema";
		else
		{
			s.name = "__type";
			s.args.emplace_back("name", Val::string(m.query));
		}
		s.sub.push_back(typenameField());
		if (src.coin())
			s.alias = "meta";
		hide(s, *l.list, l.scope);
		return true;
	}
	if (rule == "unknown argument")
	{
		if (src.coin(1, 4))
		{
			std::vector<const DirSite*> c;
			for (const auto& d : sites.dirs)
				if (!d.dirs->empty())
					c.push_back(&d);
			if (!c.empty())
			{
				auto& d = (*src.pick(c)->dirs)[0];
				d.args.emplace_back("noSuchArgument", anyLiteral(src));
				return true;
			}
		}
		const auto c = where(field);
		if (c.empty())
			return false;
		const auto* s = src.pick(c);
		std::string name = "noSuchArgument";
		std::vector<std::string> others;
		const auto* d = def(*s);
		for (const auto& t : m.types)
			for (const auto& f : t.fields)
				for (const auto& a : f.args)
					if (d && !d->arg(a.name))
						others.push_back(a.name);
		if (!others.empty() && src.coin())
			name = src.pick(others);
		auto& args = s->sel().args;
		args.insert(args.begin() + static_cast<long>(src.below(args.size() + 1)), { name, anyLiteral(src) });
		return true;
	}
	if (rule == "missing required argument")
	{
		std::vector<std::function<void()>> c;
		for (const auto& s : sites.sels)
			if (const auto* d = def(s))
				for (const auto& a : d->args)
					if (a.required())
						for (size_t i = 0; i < s.sel().args.size(); ++i)
							if (s.sel().args[i].first == a.name)
								c.push_back([&s, i] { s.sel().args.erase(s.sel().args.begin() + static_cast<long>(i)); });
		for (const auto& site : sites.dirs)
			for (auto& u : *site.dirs)
				if (const auto* d = m.directive(u.name))
					for (const auto& a : d->args)
						if (a.required())
							for (size_t i = 0; i < u.args.size(); ++i)
								if (u.args[i].first == a.name)
									c.push_back([&u, i] { u.args.erase(u.args.begin() + static_cast<long>(i)); });
		// A field which needs an argument, without it.
		for (const auto& l : sites.lists)
			for (const auto* f : fieldsOf(m, l.scope))
				for (size_t i = 0; i < f->args.size(); ++i)
					if (f->args[i].required())
						c.push_back([this, &l, f, i] {
							Sel s = selectField(src, m, *f);
							s.alias = "missingArgument";
							const auto name = f->args[i].name;
							for (size_t k = 0; k < s.args.size(); ++k)
								if (s.args[k].first == name)
								{
									s.args.erase(s.args.begin() + static_cast<long>(k));
									break;
								}
							hide(s, *l.list, l.scope);
						});
		if (c.empty())
			return false;
		src.pick(c)();
		return true;
	}
	if (rule == "null for a non-null location")
	{
		std::vector<const ValueSite*> c;
		for (const auto& v : sites.values)
			if (v.type.outerNonNull())
				c.push_back(&v);
		if (c.empty())
			return false;
		*src.pick(c)->v = Val::null();
		return true;
	}
	if (rule == "duplicate argument")
	{
		std::vector<std::vector<std::pair<std::string, Val>>*> c;
		for (const auto& s : sites.sels)
			if (field(s) && !s.sel().args.empty())
				c.push_back(&s.sel().args);
		for (const auto& d : sites.dirs)
			for (auto& u : *d.dirs)
				if (!u.args.empty())
					c.push_back(&u.args);
		if (c.empty())
			return false;
		auto& args = *src.pick(c);
		auto a = args[src.below(args.size())];
		args.insert(args.begin() + static_cast<long>(src.below(args.size() + 1)), a);
		return true;
	}
	if (rule == "selection on a leaf")
	{
		const auto c = where([&](const SelSite& s) {
			const auto* d = def(s);
			return d && m.leaf(d->type.name);
		});
		if (c.empty())
			return false;
		auto& s = src.pick(c)->sel();
		Sel in = typenameField();
		if (src.coin(1, 3))
			in.name = "f0";
		for (size_t w = src.weighted({ 4, 2, 1 }); w > 0; --w)
		{
			Sel f;
			f.kind = Sel::Inline;
			f.sub = { in };
			in = f;
		}
		s.sub.push_back(in);
		return true;
	}
	if (rule == "no selection on a composite")
	{
		std::vector<std::function<void()>> c;
		for (const auto& s : sites.sels)
			if (field(s) && !s.sel().sub.empty())
				c.push_back([&s] { s.sel().sub.clear(); });
		for (const auto& l : sites.lists)
			for (const auto* f : fieldsOf(m, l.scope))
				if (m.composite(f->type.name))
					c.push_back([this, &l, f] {
						Sel s = selectField(src, m, *f);
						s.sub.clear();
						s.alias = "noSelection";
						hide(s, *l.list, l.scope);
					});
		if (c.empty())
			return false;
		src.pick(c)();
		return true;
	}
	if (rule == "unknown fragment")
	{
		const auto& l = sites.lists[src.below(sites.lists.size())];
		Sel s;
		s.kind = Sel::Spread;
		s.name = src.coin() ? "NoSuchFragment" : l.scope;
		if (doc.frag(s.name))
			s.name = "NoSuchFragment";
		hide(s, *l.list, l.scope);
		return true;
	}
	if (rule == "fragment on a type which is unknown or no composite")
	{
		std::string cond = "NoSuchType";
		if (src.coin(2, 3))
		{
			std::vector<std::string> c { "Int", "String", "Boolean" };
			for (size_t i = m.builtinTypes; i < m.types.size(); ++i)
				if (!m.types[i].composite())
					c.push_back(m.types[i].name);
			cond = src.pick(c);
		}
		if (!doc.frags.empty() && src.coin())
		{
			doc.frags[src.below(doc.frags.size())].cond = cond;
			return true;
		}
		const auto& l = sites.lists[src.below(sites.lists.size())];
		Sel s;
		s.sub.push_back(typenameField());
		if (src.coin())
		{
			s.kind = Sel::Inline;
			s.cond = cond;
		}
		else
		{
			Frag f;
			f.name = "Misplaced";
			f.cond = cond;
			f.sels = s.sub;
			fresh.push_back(f);
			s.kind = Sel::Spread;
			s.name = f.name;
			s.sub.clear();
		}
		hide(s, *l.list, l.scope);
		return true;
	}
	if (rule == "impossible fragment")
	{
		std::vector<std::pair<const ListSite*, std::string>> c;
		for (const auto& l : sites.lists)
			for (size_t i = 0; i < m.types.size(); ++i)
				if (m.types[i].composite() && m.types[i].name != l.scope && !m.overlaps(l.scope, m.types[i].name))
					c.emplace_back(&l, m.types[i].name);
		if (c.empty())
			return false;
		const auto [l, cond] = src.pick(c);
		Sel s;
		// An existing fragment, a new one or inline.
		std::vector<std::string> fitting;
		for (const auto& f : doc.frags)
			if (m.type(f.cond) && f.cond != l->scope && !m.overlaps(f.cond, l->scope))
				fitting.push_back(f.name);
		const auto how = src.below(3);
		if (how == 0 && !fitting.empty())
		{
			s.kind = Sel::Spread;
			s.name = src.pick(fitting);
		}
		else if (how == 1)
		{
			Frag f;
			f.name = "Impossible";
			f.cond = cond;
			f.sels.push_back(typenameField());
			fresh.push_back(f);
			s.kind = Sel::Spread;
			s.name = f.name;
		}
		else
		{
			s.kind = Sel::Inline;
			s.cond = cond;
			s.sub.push_back(typenameField());
		}
		hide(s, *l->list, l->scope);
		return true;
	}
	if (rule == "fragment cycle")
	{
		if (doc.frags.empty() || src.coin(1, 3))
		{
			// A new cycle.
			const auto& l = sites.lists[src.below(sites.lists.size())];
			const size_t n = 1 + src.below(4);
			for (size_t i = 0; i < n; ++i)
			{
				Frag f;
				f.name = cat("Cycle", i);
				f.cond = l.scope;
				Sel s;
				s.kind = Sel::Spread;
				s.name = cat("Cycle", (i + 1) % n);
				if (src.coin())
					f.sels.push_back(typenameField());
				f.sels.push_back(s);
				if (src.coin())
					f.sels.push_back(typenameField());
				fresh.push_back(f);
			}
			Sel s;
			s.kind = Sel::Spread;
			s.name = "Cycle0";
			hide(s, *l.list, l.scope);
			return true;
		}
		// From a fragment back to one which leads to it.
		std::vector<std::pair<const ListSite*, std::string>> c;
		std::map<std::string, std::set<std::string>> edges;
		for (const auto& s : sites.sels)
			if (s.frag >= 0 && s.sel().kind == Sel::Spread)
				edges[doc.frags[static_cast<size_t>(s.frag)].name].insert(s.sel().name);
		const auto reaches = [&](const std::string& from, const std::string& to) {
			std::set<std::string> seen { from };
			std::vector<std::string> todo { from };
			while (!todo.empty())
			{
				const auto n = todo.back();
				todo.pop_back();
				if (n == to)
					return true;
				for (const auto& e : edges[n])
					if (seen.insert(e).second)
						todo.push_back(e);
			}
			return false;
		};
		for (const auto& l : sites.lists)
			if (l.frag >= 0)
			{
				const auto& inside = doc.frags[static_cast<size_t>(l.frag)].name;
				for (const auto& f : doc.frags)
					if (reaches(f.name, inside))
						c.emplace_back(&l, f.name);
			}
		if (c.empty())
			return false;
		const auto& [l, name] = src.pick(c);
		Sel s;
		s.kind = Sel::Spread;
		s.name = name;
		hide(s, *l->list, l->scope);
		return true;
	}
	if (rule == "unused fragment")
	{
		Frag f;
		f.name = "Unused";
		std::vector<std::string> conds;
		for (size_t i = m.builtinTypes; i < m.types.size(); ++i)
			if (m.types[i].composite())
				conds.push_back(m.types[i].name);
		f.cond = src.pick(conds);
		f.sels.push_back(typenameField());
		fresh.push_back(f);
		if (src.coin(1, 4))
		{
			// Spread only by another one which is not used.
			Frag g = f;
			g.name = "UnusedToo";
			g.sels[0].kind = Sel::Spread;
			g.sels[0].name = "Unused";
			fresh.push_back(g);
		}
		return true;
	}
	if (rule == "duplicate fragment name")
	{
		if (doc.frags.empty())
			return false;
		auto f = doc.frags[src.below(doc.frags.size())];
		fresh.push_back(f);
		return true;
	}
	if (rule == "duplicate operation name")
	{
		std::vector<size_t> c;
		for (size_t i = 0; i < doc.ops.size(); ++i)
			if (!doc.ops[i].name.empty())
				c.push_back(i);
		if (c.empty())
			return false;
		auto op = doc.ops[src.pick(c)];
		doc.ops.push_back(op);
		return true;
	}
	if (rule == "anonymous operation is not alone")
	{
		if (doc.ops.size() == 1 || src.coin())
		{
			const bool first = doc.ops[0].name.empty();
			for (auto& o : doc.ops)
				o.shorthand = false;
			Op op;
			op.name = first ? "Other" : "";
			op.sels.push_back(typenameField());
			doc.ops.push_back(op);
		}
		else
			doc.ops[src.below(doc.ops.size())].name.clear();
		return true;
	}
	if (rule == "unused variable")
	{
		auto& op = doc.ops[src.below(doc.ops.size())];
		op.shorthand = false;
		VarDef v;
		v.name = "unusedVariable";
		static const std::vector<std::string> types { "Int", "String", "Boolean", "ID", "Float" };
		v.type.name = src.pick(types);
		// Another operation may use a variable of that name, but not this one: an earlier edit may have
		// dropped its definition.
		const auto used = usesOf(doc).variables.at(static_cast<size_t>(&op - doc.ops.data()));
		std::vector<VarDef> others;
		for (const auto& o : doc.ops)
			if (&o != &op)
				for (const auto& d : o.vars)
					if (!used.count(d.name) && std::none_of(op.vars.begin(), op.vars.end(), [&](const VarDef& e) { return e.name == d.name; }))
						others.push_back(d);
		if (!others.empty() && src.coin())
			v = src.pick(others);
		op.vars.insert(op.vars.begin() + static_cast<long>(src.below(op.vars.size() + 1)), v);
		return true;
	}
	if (rule == "undefined variable")
	{
		std::vector<Op*> c;
		for (auto& o : doc.ops)
			if (!o.vars.empty())
				c.push_back(&o);
		if (!c.empty() && src.coin())
		{
			auto& op = *src.pick(c);
			op.vars.erase(op.vars.begin() + static_cast<long>(src.below(op.vars.size())));
			return true;
		}
		if (sites.values.empty())
			return false;
		*sites.values[src.below(sites.values.size())].v = Val::var("undefinedVariable");
		return true;
	}
	if (rule == "duplicate variable")
	{
		std::vector<Op*> c;
		for (auto& o : doc.ops)
			if (!o.vars.empty())
				c.push_back(&o);
		if (c.empty())
			return false;
		auto& op = *src.pick(c);
		auto v = op.vars[src.below(op.vars.size())];
		op.vars.insert(op.vars.begin() + static_cast<long>(src.below(op.vars.size() + 1)), v);
		return true;
	}
	if (rule == "variable of a type which is no input type")
	{
		std::vector<Op*> c;
		for (auto& o : doc.ops)
			if (!o.vars.empty())
				c.push_back(&o);
		if (c.empty())
			return false;
		auto& op = *src.pick(c);
		auto& v = op.vars[src.below(op.vars.size())];
		std::vector<std::string> types { "NoSuchType", m.query };
		for (size_t i = m.builtinTypes; i < m.types.size(); ++i)
			if (m.types[i].composite())
				types.push_back(m.types[i].name);
		v.type.name = src.pick(types);
		v.def.reset();
		return true;
	}
	if (rule == "variable in the wrong position")
	{
		struct Use
		{
			Val* v;
			const ValueSite* site;
		};
		std::vector<const ValueSite*> c;
		for (const auto& v : sites.values)
			c.push_back(&v);
		if (c.empty())
			return false;
		// The location's type, and a variable whose type is not usable there.
		const auto& at = *src.pick(c);
		TypeRef t = at.type;
		const auto custom = m.type(t.name) && m.type(t.name)->kind == Kind::Scalar && t.name.substr(0, 2) == "Sc";
		(void)custom;
		switch (src.below(4))
		{
			case 0:
			{
				std::vector<std::string> other { "Int", "Float", "String", "Boolean", "ID" };
				for (size_t i = m.builtinTypes; i < m.types.size(); ++i)
					if (!m.types[i].composite())
						other.push_back(m.types[i].name);
				for (int i = 0; i < 20 && t.name == at.type.name; ++i)
					t.name = src.pick(other);
				if (t.name == at.type.name)
					return false;
				break;
			}
			case 1: t.lists.insert(t.lists.begin() + static_cast<long>(src.below(t.lists.size() + 1)), src.coin()); break;
			case 2:
				if (t.lists.empty())
					return false;
				t.lists.erase(t.lists.begin() + static_cast<long>(src.below(t.lists.size())));
				break;
			default:
			{
				// Drop one non-null.
				std::vector<size_t> nn;
				for (size_t i = 0; i < t.lists.size(); ++i)
					if (t.lists[i])
						nn.push_back(i);
				if (t.nonNull)
					nn.push_back(t.lists.size());
				if (nn.empty())
					return false;
				const auto k = src.pick(nn);
				if (k == 0 && at.hasDefault)
					return false; // allowed there
				// What the other levels promise beyond the location's type does not help.
				for (size_t i = 0; i <= t.lists.size(); ++i)
					if (src.coin(1, 3))
					{
						if (i < t.lists.size())
							t.lists[i] = true;
						else
							t.nonNull = true;
					}
				if (k < t.lists.size())
					t.lists[k] = false;
				else
					t.nonNull = false;
			}
		}
		if (compatible(t, false, at.type, at.hasDefault))
			return false;
		std::optional<Val> def;
		if (!compatible(t, true, at.type, at.hasDefault) && m.type(t.name) && src.coin(1, 3))
			def = genLiteral(src, m, t);
		// Every operation which reaches the place defines it.
		*at.v = Val::var("misfit");
		for (auto& o : doc.ops)
		{
			VarDef v;
			v.name = "misfit";
			v.type = t;
			v.def = def;
			o.shorthand = false;
			o.vars.push_back(v);
		}
		return true;
	}
	if (rule == "default value which does not fit")
	{
		std::vector<Op*> c;
		for (auto& o : doc.ops)
			if (!o.vars.empty())
				c.push_back(&o);
		if (c.empty())
			return false;
		auto& op = *src.pick(c);
		auto& v = op.vars[src.below(op.vars.size())];
		auto wrong = wrongLiteral(src, m, v.type);
		if (!wrong)
			return false;
		v.def = *wrong;
		return true;
	}
	if (rule == "value which does not fit")
	{
		std::vector<const ValueSite*> c;
		for (const auto& v : sites.values)
			c.push_back(&v);
		if (c.empty())
		{
			return false;
		}
		const auto& at = *src.pick(c);
		auto wrong = wrongLiteral(src, m, at.type);
		if (!wrong)
			return false;
		*at.v = *wrong;
		return true;
	}
	if (rule == "unknown input field" || rule == "duplicate input field" || rule == "missing input field")
	{
		std::vector<const ValueSite*> c;
		for (const auto& v : sites.values)
			if (v.v->kind == Val::Object && inputType(m, v.type))
				c.push_back(&v);
		if (c.empty())
			return false;
		const auto& at = *src.pick(c);
		auto& fields = at.v->fields;
		const auto& type = *inputType(m, at.type);
		if (rule[0] == 'u')
		{
			fields.insert(fields.begin() + static_cast<long>(src.below(fields.size() + 1)), { "noSuchField", anyLiteral(src) });
			return true;
		}
		if (rule[0] == 'd')
		{
			if (fields.empty())
				return false;
			auto f = fields[src.below(fields.size())];
			fields.insert(fields.begin() + static_cast<long>(src.below(fields.size() + 1)), f);
			return true;
		}
		std::vector<size_t> required;
		for (size_t i = 0; i < fields.size(); ++i)
			for (const auto& in : type.inputs)
				if (in.name == fields[i].first && in.required())
					required.push_back(i);
		if (required.empty())
			return false;
		fields.erase(fields.begin() + static_cast<long>(src.pick(required)));
		return true;
	}
	if (rule == "conflicting fields")
	{
		struct Choice
		{
			const SelSite* s;
			Sel other;
		};
		const auto c = where([&](const SelSite& s) { return field(s) && def(s); });
		if (c.empty())
			return false;
		const auto& s = *src.pick(c);
		std::vector<const FieldDef*> others;
		for (const auto* f : fieldsOf(m, s.scope))
			if (f->name != s.sel().name)
				others.push_back(f);
		Sel other;
		if (s.sel().name != "__typename" && (others.empty() || src.coin(1, 5)))
			other = typenameField();
		else if (others.empty())
			return false;
		else
			other = selectField(src, m, *src.pick(others));
		other.alias = s.sel().response();
		hide(other, *s.list, s.scope);
		return true;
	}
	if (rule == "conflicting arguments")
	{
		std::vector<std::pair<const SelSite*, Sel>> c;
		for (const auto& s : sites.sels)
		{
			const auto* d = def(s);
			if (!d)
				continue;
			for (const auto& a : d->args)
			{
				Sel other = s.sel();
				bool had = false;
				for (size_t i = 0; i < other.args.size(); ++i)
					if (other.args[i].first == a.name)
					{
						had = true;
						if (!a.required())
						{
							other.args.erase(other.args.begin() + static_cast<long>(i));
							c.emplace_back(&s, other);
						}
						else if (other.args[i].second.kind == Val::Var || other.args[i].second.kind == Val::List)
						{
							auto v = genLiteral(src, m, a.type);
							if (v.kind != other.args[i].second.kind || v.list.size() != other.args[i].second.list.size())
							{
								other.args[i].second = v;
								c.emplace_back(&s, other);
							}
						}
						else if (other.args[i].second.kind == Val::Bool)
						{
							other.args[i].second = Val::boolean(!other.args[i].second.value.b);
							c.emplace_back(&s, other);
						}
						else if (other.args[i].second.kind == Val::Int)
						{
							other.args[i].second = Val::integer(other.args[i].second.value.i == 7 ? 8 : 7);
							c.emplace_back(&s, other);
						}
						break;
					}
				if (!had)
				{
					other.args.emplace_back(a.name, genLiteral(src, m, a.type));
					c.emplace_back(&s, other);
				}
			}
		}
		if (c.empty())
			return false;
		auto& [s, other] = c[src.below(c.size())];
		other.dirs.clear();
		if (other.alias.empty() && src.coin())
			other.alias = other.name;
		hide(other, *s->list, s->scope);
		return true;
	}
	if (rule == "conflicting fields below")
	{
		const auto c = where([&](const SelSite& s) {
			const auto* d = def(s);
			if (!d || s.sel().sub.empty())
				return false;
			for (const auto& f : s.sel().sub)
				if (f.kind == Sel::Field && f.name != "__typename")
					return true;
			return false;
		});
		if (c.empty())
			return false;
		const auto& s = *src.pick(c);
		const auto* d = def(s);
		std::vector<size_t> inner;
		for (size_t i = 0; i < s.sel().sub.size(); ++i)
			if (s.sel().sub[i].kind == Sel::Field && s.sel().sub[i].name != "__typename")
				inner.push_back(i);
		const auto& victim = s.sel().sub[src.pick(inner)];
		Sel other = s.sel();
		other.dirs.clear();
		other.sub.clear();
		Sel t = typenameField();
		t.alias = victim.response();
		std::vector<const FieldDef*> others;
		for (const auto* f : fieldsOf(m, d->type.name))
			if (f->name != victim.name)
				others.push_back(f);
		if (!others.empty() && src.coin())
		{
			t = selectField(src, m, *src.pick(others));
			t.alias = victim.response();
		}
		if (src.coin(1, 3))
		{
			Sel w;
			w.kind = Sel::Inline;
			w.sub = { t };
			t = w;
		}
		other.sub.push_back(t);
		hide(other, *s.list, s.scope);
		return true;
	}
	if (rule == "conflicting shapes in disjoint objects")
	{
		struct Pair
		{
			const ListSite* l;
			std::string a, b;
			const FieldDef *fa, *fb;
		};
		std::vector<Pair> c;
		for (const auto& l : sites.lists)
		{
			const auto possible = m.possible(l.scope);
			for (const auto& a : possible)
				for (const auto& b : possible)
					if (a != b)
						for (const auto* fa : fieldsOf(m, a))
							for (const auto* fb : fieldsOf(m, b))
								if (!(fa->type == fb->type) && (m.leaf(fa->type.name) || m.leaf(fb->type.name) || fa->type.lists != fb->type.lists || (fa->type.nonNull != fb->type.nonNull)))
									c.push_back({ &l, a, b, fa, fb });
		}
		if (c.empty())
			return false;
		const auto& p = src.pick(c);
		for (const auto& [type, f] : { std::make_pair(p.a, p.fa), std::make_pair(p.b, p.fb) })
		{
			Sel w;
			w.kind = Sel::Inline;
			w.cond = type;
			Sel s = selectField(src, m, *f);
			s.alias = "shape";
			w.sub.push_back(s);
			p.l->list->push_back(w);
		}
		return true;
	}
	if (rule == "several subscription roots")
	{
		std::vector<Op*> c;
		for (auto& o : doc.ops)
			if (o.kind == "subscription")
				c.push_back(&o);
		if (c.empty() || m.subscription.empty())
			return false;
		auto& op = *src.pick(c);
		const auto fields = fieldsOf(m, m.subscription);
		Sel s = selectField(src, m, *src.pick(fields));
		s.alias = "second_root";
		hide(s, op.sels, m.subscription);
		return true;
	}
	if (rule == "operation which is not supported")
	{
		std::vector<std::string> kinds;
		if (m.mutation.empty())
			kinds.push_back("mutation");
		if (m.subscription.empty())
			kinds.push_back("subscription");
		if (kinds.empty())
			return false;
		for (auto& o : doc.ops)
		{
			o.shorthand = false;
			if (o.name.empty())
				o.name = "Named";
		}
		Op op;
		op.kind = src.pick(kinds);
		op.name = "Unsupported";
		op.sels.push_back(typenameField());
		if (src.coin())
		{
			op.sels[0].name = "f0";
			op.sels[0].args.emplace_back("a", Val::var("x"));
			VarDef v;
			v.name = "x";
			v.type.name = "Int";
			op.vars.push_back(v);
		}
		doc.ops.push_back(op);
		return true;
	}
	if (rule == "type system definition")
	{
		static const std::vector<std::string> defs { "type NewType { f: Int }", "scalar NewScalar", "enum NewEnum { A }", "schema { query: Query }", "directive @newDirective on FIELD", "input NewInput { a: Int }", "interface NewInterface { f: Int }", "union NewUnion = A | B", "extend type Query { more: Int }" };
		add(src.pick(defs));
		return true;
	}
	if (rule == "unknown directive")
	{
		auto& site = sites.dirs[src.below(sites.dirs.size())];
		Dir d;
		static const std::vector<std::string> names { "noSuchDirective", "skipped", "Include" };
		d.name = src.pick(names);
		site.dirs->insert(site.dirs->begin() + static_cast<long>(src.below(site.dirs->size() + 1)), d);
		for (auto& o : doc.ops)
			o.shorthand = o.shorthand && o.dirs.empty();
		return true;
	}
	if (rule == "directive in the wrong location")
	{
		std::vector<std::pair<const DirSite*, const DirectiveDef*>> c;
		for (const auto& site : sites.dirs)
			for (const auto& d : m.directives)
				if (!d.allows(site.location))
					c.emplace_back(&site, &d);
		if (c.empty())
			return false;
		const auto& [site, def] = src.pick(c);
		Dir d;
		d.name = def->name;
		for (const auto& a : def->args)
			if (a.required())
				d.args.emplace_back(a.name, genLiteral(src, m, a.type));
		site->dirs->insert(site->dirs->begin() + static_cast<long>(src.below(site->dirs->size() + 1)), d);
		for (auto& o : doc.ops)
			o.shorthand = o.shorthand && o.dirs.empty();
		return true;
	}
	if (rule == "duplicate directive")
	{
		std::vector<const DirSite*> c;
		for (const auto& site : sites.dirs)
			if (!site.dirs->empty())
				c.push_back(&site);
		if (c.empty())
			return false;
		auto& dirs = *src.pick(c)->dirs;
		auto d = dirs[src.below(dirs.size())];
		dirs.insert(dirs.begin() + static_cast<long>(src.below(dirs.size() + 1)), d);
		return true;
	}
	return false;
}

} // namespace

std::optional<Val> wrongLiteral(Src& src, const MSchema& m, const TypeRef& type, size_t depth)
{
	if (type.outerNonNull() && src.coin(1, 6))
		return Val::null();
	if (!type.lists.empty())
	{
		// A list with one element which does not fit.
		auto bad = wrongLiteral(src, m, type.element(), depth + 1);
		if (!bad)
			return std::nullopt;
		Val v;
		v.kind = Val::List;
		for (size_t i = 0, n = src.size(0, 2); i < n; ++i)
			v.list.push_back(genLiteral(src, m, type.element()));
		v.list.insert(v.list.begin() + static_cast<long>(src.below(v.list.size() + 1)), *bad);
		return v;
	}
	const auto* t = m.type(type.name);
	const auto object = [] {
		Val v;
		v.kind = Val::Object;
		v.fields.emplace_back("x", Val::integer(1));
		return v;
	};
	const auto list = [&] {
		Val v;
		v.kind = Val::List;
		v.list.push_back(genLiteral(src, m, type));
		return v;
	};
	const auto number = [](const char* text) {
		Val v;
		v.kind = Val::Int;
		v.text = text;
		return v;
	};
	std::vector<Val> c;
	if (t && t->kind == Kind::Enum)
	{
		c = { Val::enumeration("NO_SUCH_VALUE"), Val::string(t->values[0].name), Val::integer(0), Val::boolean(true), object(), list(), Val::real("1.5") };
		std::string lower = t->values[0].name;
		lower += "_";
		c.push_back(Val::enumeration(lower));
		// The values of another enumeration.
		for (const auto& other : m.types)
			if (other.kind == Kind::Enum)
				for (const auto& v : other.values)
					if (std::none_of(t->values.begin(), t->values.end(), [&](const EnumDef& e) { return e.name == v.name; }))
						c.push_back(Val::enumeration(v.name));
	}
	else if (t && t->kind == Kind::Input)
	{
		if (src.coin())
		{
			c = { Val::enumeration("NO_SUCH_VALUE"), Val::string("text"), Val::integer(0), Val::boolean(true), Val::real("1.5") };
			return src.pick(c);
		}
		auto v = genLiteral(src, m, TypeRef { {}, true, type.name });
		switch (src.below(3))
		{
			case 0: v.fields.emplace_back("noSuchField", anyLiteral(src)); return v;
			case 1:
				for (size_t i = 0; i < v.fields.size(); ++i)
					for (const auto& in : t->inputs)
						if (in.name == v.fields[i].first && in.required())
						{
							v.fields.erase(v.fields.begin() + static_cast<long>(i));
							return v;
						}
				return std::nullopt;
			default:
				if (v.fields.empty() || depth > 3)
					return std::nullopt;
				auto& f = v.fields[src.below(v.fields.size())];
				for (const auto& in : t->inputs)
					if (in.name == f.first)
					{
						auto bad = wrongLiteral(src, m, in.type, depth + 1);
						if (!bad)
							return std::nullopt;
						f.second = *bad;
						return v;
					}
				return std::nullopt;
		}
	}
	else if (type.name == "Int")
		c = { Val::real("1.5"), Val::real("1e3"), Val::real("0.0"), Val::string("1"), Val::boolean(true), Val::enumeration("RED"), object(), list(), number("2147483648"), number("-2147483649"), number("99999999999999999999") };
	else if (type.name == "Float")
		c = { Val::string("1.5"), Val::boolean(false), Val::enumeration("RED"), object(), list(), Val::real("1e999"), Val::real("-1e999") };
	else if (type.name == "String")
		c = { Val::integer(1), Val::real("1.5"), Val::boolean(true), Val::enumeration("RED"), object(), list() };
	else if (type.name == "Boolean")
		c = { Val::integer(1), Val::real("1.5"), Val::string("true"), Val::enumeration("TRUE"), object(), list() };
	else if (type.name == "ID")
		c = { Val::real("1.5"), Val::boolean(true), Val::enumeration("RED"), object(), list() };
	if (c.empty())
		return std::nullopt;
	return src.pick(c);
}

std::vector<std::string> ruleNames()
{
	return {
		"unknown field",
		"field on a union",
		"introspection below the root",
		"unknown argument",
		"missing required argument",
		"null for a non-null location",
		"duplicate argument",
		"selection on a leaf",
		"no selection on a composite",
		"unknown fragment",
		"fragment on a type which is unknown or no composite",
		"impossible fragment",
		"fragment cycle",
		"unused fragment",
		"duplicate fragment name",
		"duplicate operation name",
		"anonymous operation is not alone",
		"unused variable",
		"undefined variable",
		"duplicate variable",
		"variable of a type which is no input type",
		"variable in the wrong position",
		"default value which does not fit",
		"value which does not fit",
		"unknown input field",
		"duplicate input field",
		"missing input field",
		"conflicting fields",
		"conflicting arguments",
		"conflicting fields below",
		"conflicting shapes in disjoint objects",
		"several subscription roots",
		"operation which is not supported",
		"type system definition",
		"unknown directive",
		"directive in the wrong location",
		"duplicate directive",
	};
}

std::optional<std::string> breakRule(Src& src, const MSchema& m, Doc& doc, const std::string& rule)
{
	Editor e(src, m, doc);
	std::vector<VarDef> pool;
	const auto remember = [&] {
		for (const auto& o : doc.ops)
			for (const auto& v : o.vars)
				if (std::none_of(pool.begin(), pool.end(), [&](const VarDef& p) { return p.name == v.name; }))
					pool.push_back(v);
	};
	remember();
	const auto before = usesOf(doc);
	const bool done = e.apply(rule);
	for (auto& f : e.fresh)
		doc.frags.push_back(f);
	if (done && rule.find("unused") == rule.npos && rule.find("undefined") == rule.npos && rule.find("duplicate") == rule.npos && rule != "fragment cycle")
	{
		// The edit breaks no other rule by the way: a variable or a fragment it took the only use of
		// goes, an operation which reaches a new use of a variable defines it.
		remember();
		adjustUses(doc, before, pool);
	}
	for (auto& o : doc.ops)
		o.shorthand = o.shorthand && doc.ops.size() == 1 && o.name.empty() && o.vars.empty() && o.dirs.empty();
	reorder(doc, src);
	return done ? std::make_optional(rule) : std::nullopt;
}

std::optional<std::string> breakRule(Src& src, const MSchema& m, Doc& doc)
{
	static const auto names = ruleNames();
	return breakRule(src, m, doc, src.pick(names));
}

} // namespace h
