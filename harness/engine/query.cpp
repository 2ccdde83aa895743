#include "query.h"

#include <algorithm>

namespace h {

bool compatible(const TypeRef& var, bool varNonNullDefault, const TypeRef& location, bool locationDefault)
{
	if (var.name != location.name || var.lists.size() != location.lists.size())
		return false;
	for (size_t i = 0; i <= var.lists.size(); ++i)
	{
		const bool vn = i < var.lists.size() ? var.lists[i] : var.nonNull;
		const bool ln = i < location.lists.size() ? location.lists[i] : location.nonNull;
		if (ln && !vn && !(i == 0 && (varNonNullDefault || locationDefault)))
			return false;
	}
	return true;
}

namespace {

struct Gen
{
	Src& src;
	const MSchema& m;
	DocOptions o;
	Doc doc;
	std::vector<VarDef> pool;
	size_t alias = 0;
	size_t budget = 0;
	size_t spreads = 0;
	std::set<std::string> plainComposites;
	size_t currentFrag = 0; // fragments from here on may be spread
	size_t subscriptionFrags = 0;

	VarFn varFn()
	{
		if (!o.variables)
			return {};
		return [this](const TypeRef& type, bool hasDefault) -> std::optional<Val> {
			if (!src.coin(1, 4))
				return std::nullopt;
			const auto* t = m.type(type.name);
			const bool custom = t && t->kind == Kind::Scalar && type.name.substr(0, 2) == "Sc";
			(void)custom;
			// Reuse one which fits.
			std::vector<size_t> fits;
			for (size_t i = 0; i < pool.size(); ++i)
				if (compatible(pool[i].type, pool[i].def && pool[i].def->kind != Val::Null, type, hasDefault))
					fits.push_back(i);
			if (!fits.empty() && src.coin())
			{
				auto& v = pool[src.pick(fits)];
				v.strict = v.strict || type.outerNonNull();
				return Val::var(v.name);
			}
			VarDef v;
			static const std::vector<std::string> names { "v", "var_", "x", "a", "type", "on", "query" };
			v.name = cat(src.pick(names), pool.size());
			v.type = type;
			v.strict = type.outerNonNull();
			// Stricter at random places.
			for (size_t i = 0; i < v.type.lists.size(); ++i)
				if (src.coin(1, 5))
					v.type.lists[i] = true;
			if (src.coin(1, 5))
				v.type.nonNull = true;
			const bool relax = type.outerNonNull() && src.coin(1, 3);
			if (relax)
				v.type = v.type.withOuter(false);
			const bool needDefault = relax && !hasDefault;
			if (needDefault || (src.coin(1, 3)))
			{
				v.def = genLiteral(src, m, v.type.withOuter(relax ? true : v.type.outerNonNull()));
				if (v.type.outerNonNull() && src.coin())
					v.def.reset();
			}
			pool.push_back(v);
			return Val::var(v.name);
		};
	}

	std::vector<Dir> dirs(const std::string& location, bool skipInclude)
	{
		std::vector<Dir> r;
		if (skipInclude && o.skipInclude)
		{
			const auto which = src.weighted({ 16, 2, 2, 1 });
			const auto make = [&](const char* name, bool likelySkip) {
				Dir d;
				d.name = name;
				Val v = Val::boolean(likelySkip);
				if (src.coin(1, 3))
					v.value = JV::boolean(!v.value.b), v.text = v.value.b ? "true" : "false";
				if (auto fn = varFn())
					if (auto var = fn(TypeRef { {}, true, "Boolean" }, false))
						v = *var;
				d.args.emplace_back("if", v);
				r.push_back(d);
			};
			if (which & 1)
				make("skip", false);
			if (which & 2)
				make("include", true);
		}
		if (o.directives)
			for (size_t i = m.builtinDirectives; i < m.directives.size(); ++i)
			{
				const auto& d = m.directives[i];
				if (!d.allows(location) || !src.coin(1, 4))
					continue;
				Dir u;
				u.name = d.name;
				for (const auto& a : d.args)
					if (a.required() || src.coin())
						u.args.emplace_back(a.name, genLiteral(src, m, a.type, varFn(), 0, a.def && a.def->kind != Val::Null));
				r.push_back(u);
			}
		if (r.size() > 1 && src.coin(1, 3))
			std::reverse(r.begin(), r.end());
		return r;
	}

	std::string freshAlias()
	{
		static const std::vector<std::string> names { "x", "alias", "_r", "on", "fragment" };
		return cat(src.pick(names), ++alias);
	}

	Sel field(const std::string& scope, const FieldDef& f, size_t depth)
	{
		Sel s;
		s.name = f.name;
		const bool leaf = m.leaf(f.type.name);
		for (const auto& a : f.args)
			if (a.required() || src.coin(3, 5))
			{
				if (f.name == "__type")
				{
					const auto& t = m.types[src.below(m.types.size())];
					s.args.emplace_back(a.name, Val::string(t.name));
				}
				else
					s.args.emplace_back(a.name, genLiteral(src, m, a.type, varFn(), 0, a.def && a.def->kind != Val::Null));
			}
		if (s.args.size() > 1 && src.coin(1, 4))
			std::reverse(s.args.begin(), s.args.end());
		s.dirs = dirs("FIELD", true);
		if (leaf)
		{
			if (!s.args.empty() || (f.args.empty() ? src.coin(1, 4) : src.coin()))
				s.alias = freshAlias();
			else if (!f.args.empty())
				s.alias = freshAlias(); // elsewhere it may have arguments
			else if (src.coin(1, 12))
				s.alias = s.name;
		}
		else
		{
			const bool first = plainComposites.insert(s.name).second;
			if (o.dupComposites && s.args.empty() && f.args.empty() && src.coin(3, 4))
			{
				// may repeat: the sub-selections merge
			}
			else if (o.dupComposites || !first || src.coin())
				s.alias = freshAlias();
			s.sub = selections(f.type.name, depth + 1);
		}
		(void)scope;
		return s;
	}

	std::vector<std::string> overlapping(const std::string& scope)
	{
		std::vector<std::string> r;
		for (size_t i = m.builtinTypes; i < m.types.size(); ++i)
			if (m.types[i].composite() && m.overlaps(scope, m.types[i].name))
				r.push_back(m.types[i].name);
		return r;
	}

	std::vector<Sel> selections(const std::string& scope, size_t depth)
	{
		std::vector<Sel> r;
		const auto* t = m.type(scope);
		const bool introspective = scope.substr(0, 2) == "__";
		const size_t n = src.size(1, depth > 2 ? 3 : 5);
		for (size_t i = 0; i < n; ++i)
		{
			const bool tight = depth >= o.maxDepth || budget == 0;
			if (budget > 0)
				--budget;
			const auto kind = src.weighted({ 8, tight ? 0u : o.fragmentWeight, tight ? 0u : o.fragmentWeight, tight || introspective ? 0u : 1u });
			if (kind == 1)
			{
				Sel s;
				s.kind = Sel::Inline;
				if (!introspective && src.coin(3, 4))
					s.cond = src.pick(overlapping(scope));
				else if (introspective && src.coin())
					s.cond = scope;
				s.dirs = dirs("INLINE_FRAGMENT", true);
				s.sub = selections(s.cond.empty() ? scope : s.cond, depth + 1);
				r.push_back(s);
				continue;
			}
			if (kind == 2)
			{
				std::vector<size_t> fits;
				for (size_t k = currentFrag; k < doc.frags.size(); ++k)
					if (doc.frags[k].cond == scope || (!introspective && m.overlaps(scope, doc.frags[k].cond)))
						fits.push_back(k);
				if (!fits.empty() && spreads < 10)
				{
					++spreads;
					Sel s;
					s.kind = Sel::Spread;
					s.name = doc.frags[src.pick(fits)].name;
					s.dirs = dirs("FRAGMENT_SPREAD", true);
					r.push_back(s);
					continue;
				}
			}
			if (kind == 3)
			{
				// The same response name in two disjoint objects.
				const auto possible = m.possible(scope);
				if (possible.size() > 1)
				{
					const size_t a = src.below(possible.size()), b = (a + 1 + src.below(possible.size() - 1)) % possible.size();
					std::vector<std::pair<const FieldDef*, const FieldDef*>> pairs;
					for (const auto& fa : m.type(possible[a])->fields)
						for (const auto& fb : m.type(possible[b])->fields)
							if (m.leaf(fa.type.name) && fa.type == fb.type && fa.name != fb.name)
								pairs.emplace_back(&fa, &fb);
					if (!pairs.empty())
					{
						const auto [fa, fb] = src.pick(pairs);
						const auto name = freshAlias();
						for (const auto& [f, type] : { std::make_pair(fa, possible[a]), std::make_pair(fb, possible[b]) })
						{
							Sel in;
							in.kind = Sel::Inline;
							in.cond = type;
							Sel s = field(type, *f, depth + 1);
							s.alias = name;
							in.sub.push_back(s);
							r.push_back(in);
						}
						continue;
					}
				}
			}
			// A field.
			std::vector<const FieldDef*> candidates;
			if (t->kind != Kind::Union)
				for (const auto& f : t->fields)
					if (m.leaf(f.type.name) || !tight)
						candidates.push_back(&f);
			if (scope == m.query && !m.noIntrospection && o.introspection && !tight && src.coin(1, 10))
				candidates = { m.field(scope, src.coin() ? "__schema" : "__type") };
			if (candidates.empty() || src.coin(1, 8))
				candidates = { m.field(scope, "__typename") };
			r.push_back(field(scope, *src.pick(candidates), depth));
			if (!r.back().args.empty() && r.back().sub.empty() && src.coin(1, 5))
			{
				// The same field with the same arguments merges.
				auto again = r.back();
				again.dirs = dirs("FIELD", true);
				if (src.coin())
					std::reverse(again.args.begin(), again.args.end());
				if (src.coin(1, 3) && !introspective)
				{
					Sel w;
					w.kind = Sel::Inline;
					w.sub = { again };
					again = w;
				}
				r.push_back(again);
			}
			else if (o.dupComposites && !r.back().sub.empty() && src.coin(1, 3) && !tight)
			{
				// The same field again with more below it.
				auto again = r.back();
				again.dirs = dirs("FIELD", true);
				const auto* def = m.field(scope, again.name);
				again.sub = selections(def->type.name, depth + 1);
				r.push_back(again);
			}
		}
		return r;
	}

	void operation(size_t index, size_t count)
	{
		Op op;
		std::vector<std::string> kinds { "query" };
		if (!m.mutation.empty())
			kinds.push_back("mutation");
		if (!m.subscription.empty() && o.subscriptionRoots)
			kinds.push_back("subscription");
		op.kind = o.only.empty() ? src.pick(kinds) : o.only;
		static const std::vector<std::string> names { "Op", "query", "A", "mutation", "on" };
		if (count > 1 || src.coin())
			op.name = cat(src.pick(names), index);
		op.dirs = dirs(op.kind == "query" ? "QUERY" : op.kind == "mutation" ? "MUTATION" : "SUBSCRIPTION", false);
		const auto& root = op.kind == "query" ? m.query : op.kind == "mutation" ? m.mutation : m.subscription;
		currentFrag = subscriptionFrags;
		budget = o.budget;
		if (op.kind == "subscription")
		{
			// One root field, possibly selected more than once or from inside of fragments.
			const auto saved = o.skipInclude;
			std::vector<const FieldDef*> all;
			for (const auto& f : m.type(root)->fields)
				all.push_back(&f);
			const auto* f = src.pick(all);
			for (int i = 0; i < 3 && o.budget >= 12 && m.leaf(f->type.name); ++i)
				f = src.pick(all);
			o.skipInclude = false;
			const auto dirsLater = dirs("FIELD", false);
			o.skipInclude = saved;
			Sel s = field(root, *f, 0);
			s.dirs = dirsLater;
			std::vector<Sel> sels { s };
			// The same selection again changes nothing.
			if (m.leaf(f->type.name) && src.coin(1, 5))
				sels.push_back(s);
			o.skipInclude = false;
			for (size_t wraps = src.weighted({ 6, 3, 1 }); wraps > 0; --wraps)
			{
				Sel w;
				if (src.coin())
				{
					w.kind = Sel::Inline;
					if (src.coin())
						w.cond = root;
					w.dirs = dirs("INLINE_FRAGMENT", false);
					w.sub = sels;
				}
				else
				{
					Frag frag;
					frag.name = cat("SubRoot", index, "_", wraps);
					frag.cond = root;
					frag.dirs = dirs("FRAGMENT_DEFINITION", false);
					frag.sels = sels;
					doc.frags.insert(doc.frags.begin(), frag);
					++subscriptionFrags;
					w.kind = Sel::Spread;
					w.name = frag.name;
					w.dirs = dirs("FRAGMENT_SPREAD", false);
				}
				sels = { w };
			}
			o.skipInclude = saved;
			op.sels = sels;
		}
		else if (o.introspectionOnly)
		{
			const size_t n = src.size(1, 3);
			for (size_t i = 0; i < n; ++i)
				op.sels.push_back(field(root, *m.field(root, src.coin() ? "__schema" : "__type"), 0));
		}
		else
			op.sels = selections(root, 0);
		doc.ops.push_back(op);
	}
};

void collectDirs(const std::vector<Dir>& dirs, std::set<std::string>& out)
{
	for (const auto& d : dirs)
		for (const auto& [n, v] : d.args)
			usedVariables(v, out);
}

void reach(const Doc& doc, const std::vector<Sel>& sels, std::set<std::string>& out)
{
	for (const auto& s : sels)
	{
		if (s.kind == Sel::Spread)
		{
			if (const auto* f = doc.frag(s.name))
				if (out.insert(s.name).second)
					reach(doc, f->sels, out);
		}
		else
			reach(doc, s.sub, out);
	}
}

} // namespace

void usedVariables(const Val& v, std::set<std::string>& out)
{
	if (v.kind == Val::Var)
		out.insert(v.text);
	for (const auto& e : v.list)
		usedVariables(e, out);
	for (const auto& [n, e] : v.fields)
		usedVariables(e, out);
}

void usedVariables(const Doc& doc, const std::vector<Sel>& sels, std::set<std::string>& out, std::set<std::string>& seen)
{
	for (const auto& s : sels)
	{
		collectDirs(s.dirs, out);
		for (const auto& [n, v] : s.args)
			usedVariables(v, out);
		if (s.kind == Sel::Spread)
		{
			if (const auto* f = doc.frag(s.name))
				if (seen.insert(s.name).second)
				{
					collectDirs(f->dirs, out);
					usedVariables(doc, f->sels, out, seen);
				}
		}
		else
			usedVariables(doc, s.sub, out, seen);
	}
}

void finish(Src* src, Doc& doc, const std::vector<VarDef>& pool)
{
	std::set<std::string> reached;
	for (const auto& op : doc.ops)
		reach(doc, op.sels, reached);
	std::vector<Frag> frags;
	for (auto& f : doc.frags)
		if (reached.count(f.name))
			frags.push_back(f);
	doc.frags = frags;
	for (auto& op : doc.ops)
	{
		std::set<std::string> used, seen;
		collectDirs(op.dirs, used);
		usedVariables(doc, op.sels, used, seen);
		op.vars.clear();
		for (const auto& v : pool)
			if (used.count(v.name))
				op.vars.push_back(v);
		if (src && op.vars.size() > 1 && src->coin(1, 3))
			std::reverse(op.vars.begin(), op.vars.end());
	}
	doc.order.clear();
	for (size_t i = 0; i < doc.ops.size() + doc.frags.size(); ++i)
		doc.order.push_back(i);
	if (src)
		for (size_t i = doc.order.size(); i > 1; --i)
			if (src->coin(1, 3))
				std::swap(doc.order[i - 1], doc.order[src->below(i)]);
}

Uses usesOf(const Doc& doc)
{
	Uses uses;
	for (const auto& op : doc.ops)
	{
		reach(doc, op.sels, uses.fragments);
		std::set<std::string> used, seen;
		collectDirs(op.dirs, used);
		usedVariables(doc, op.sels, used, seen);
		uses.variables.push_back(std::move(used));
	}
	return uses;
}

void adjustUses(Doc& doc, const Uses& before, const std::vector<VarDef>& pool)
{
	const auto after = usesOf(doc);
	doc.frags.erase(std::remove_if(doc.frags.begin(), doc.frags.end(), [&](const Frag& f) { return before.fragments.count(f.name) && !after.fragments.count(f.name); }), doc.frags.end());
	for (size_t i = 0; i < std::min(before.variables.size(), doc.ops.size()); ++i)
	{
		auto& op = doc.ops[i];
		const auto &was = before.variables[i], &is = after.variables[i];
		op.vars.erase(std::remove_if(op.vars.begin(), op.vars.end(), [&](const VarDef& v) { return v.name == "misfit" ? !is.count(v.name) : was.count(v.name) && !is.count(v.name); }), op.vars.end());
		for (const auto& v : pool)
			if (is.count(v.name) && !was.count(v.name) && std::none_of(op.vars.begin(), op.vars.end(), [&](const VarDef& o) { return o.name == v.name; }))
			{
				op.vars.push_back(v);
				op.shorthand = false;
			}
	}
}

Doc genDoc(Src& src, const MSchema& m, const DocOptions& options)
{
	Gen g { src, m, options };
	// Names and conditions of all fragments first, later ones may be spread in earlier ones.
	const size_t frags = options.fragmentWeight ? src.size(0, 4) : 0;
	for (size_t i = 0; i < frags; ++i)
	{
		Frag f;
		static const std::vector<std::string> names { "F", "frag_", "query", "Fragment" };
		f.name = cat(src.pick(names), i);
		std::vector<std::string> conds;
		for (size_t k = m.builtinTypes; k < m.types.size(); ++k)
			if (m.types[k].composite() && m.types[k].name != m.subscription)
				conds.push_back(m.types[k].name);
		if (options.introspection && !m.noIntrospection)
		{
			if (options.introspectionOnly)
				conds.clear();
			if (options.introspectionOnly || src.coin(1, 8))
				for (auto n : { "__Schema", "__Type", "__Field", "__InputValue", "__EnumValue", "__Directive" })
					conds.push_back(n);
		}
		if (conds.empty())
			break;
		f.cond = src.pick(conds);
		g.doc.frags.push_back(f);
	}
	for (size_t i = 0; i < g.doc.frags.size(); ++i)
	{
		g.currentFrag = i + 1;
		g.budget = 6;
		auto d = g.dirs("FRAGMENT_DEFINITION", false);
		auto s = g.selections(g.doc.frags[i].cond, 2);
		g.doc.frags[i].dirs = d;
		g.doc.frags[i].sels = s;
	}
	const size_t ops = src.size(1, options.maxOps);
	for (size_t i = 0; i < ops; ++i)
		g.operation(i, ops);
	finish(&src, g.doc, g.pool);
	for (auto& op : g.doc.ops)
	{
		// Every operation has its own defaults.
		for (auto& v : op.vars)
			if (v.def && v.def->kind != Val::Null && src.coin(1, 3))
				v.def = genLiteral(src, m, v.type.withOuter(true));
		op.shorthand = g.doc.ops.size() == 1 && op.kind == "query" && op.name.empty() && op.vars.empty() && op.dirs.empty() && src.coin();
	}
	return g.doc;
}

namespace {

struct Writer
{
	Src* src;
	int layout;
	std::string out;
	size_t line = 1, column = 1;

	void raw(const std::string& s)
	{
		for (char c : s)
		{
			out += c;
			if (c == '\n')
			{
				++line;
				column = 1;
			}
			else
				++column;
		}
	}
	void gap()
	{
		if (layout == 0 || !src)
		{
			raw(" ");
			return;
		}
		switch (src->weighted({ 10, 4, 1, 1, 1 }))
		{
			case 0: raw(" "); break;
			case 1: raw("\n"); break;
			case 2: raw(" # comment {\n"); break;
			case 3: raw(" , "); break;
			case 4: raw("\t\n  "); break;
		}
	}
	void token(const std::string& s)
	{
		raw(s);
		gap();
	}
	void newline()
	{
		if (layout == 0)
			raw("\n");
		else
			gap();
	}
	Pos pos() const
	{
		return { line, column };
	}
	void value(const Val& v)
	{
		switch (v.kind)
		{
			case Val::List:
				token("[");
				for (const auto& e : v.list)
					value(e);
				token("]");
				break;
			case Val::Object:
				token("{");
				for (const auto& [n, e] : v.fields)
				{
					token(n);
					token(":");
					value(e);
				}
				token("}");
				break;
			default: token(v.render());
		}
	}
	void args(const std::vector<std::pair<std::string, Val>>& a)
	{
		if (a.empty())
			return;
		token("(");
		for (size_t i = 0; i < a.size(); ++i)
		{
			token(a[i].first);
			token(":");
			value(a[i].second);
			if (layout == 0 && i + 1 < a.size())
				token(",");
		}
		token(")");
	}
	void dirs(const std::vector<Dir>& ds)
	{
		for (const auto& d : ds)
		{
			token("@" + d.name);
			args(d.args);
		}
	}
	void sels(const std::vector<Sel>& ss)
	{
		token("{");
		newline();
		for (const auto& s : ss)
		{
			s.pos = pos();
			if (s.kind == Sel::Field)
			{
				if (!s.alias.empty())
				{
					token(s.alias);
					token(":");
				}
				token(s.name);
				args(s.args);
				dirs(s.dirs);
				if (!s.sub.empty())
					sels(s.sub);
			}
			else if (s.kind == Sel::Spread)
			{
				token("...");
				token(s.name);
				dirs(s.dirs);
			}
			else
			{
				token("...");
				if (!s.cond.empty())
				{
					token("on");
					token(s.cond);
				}
				dirs(s.dirs);
				sels(s.sub);
			}
			newline();
		}
		token("}");
	}
	void type(const TypeRef& t)
	{
		token(t.text());
	}
	void op(const Op& o)
	{
		o.pos = pos();
		if (!o.shorthand)
		{
			token(o.kind);
			if (!o.name.empty())
				token(o.name);
			if (!o.vars.empty())
			{
				token("(");
				for (const auto& v : o.vars)
				{
					token("$" + v.name);
					token(":");
					type(v.type);
					if (v.def)
					{
						token("=");
						value(*v.def);
					}
				}
				token(")");
			}
			dirs(o.dirs);
		}
		sels(o.sels);
		newline();
	}
	void frag(const Frag& f)
	{
		f.pos = pos();
		token("fragment");
		token(f.name);
		token("on");
		token(f.cond);
		dirs(f.dirs);
		sels(f.sels);
		newline();
	}
};

} // namespace

void render(Src& src, Doc& doc, int layout)
{
	Writer w { &src, layout };
	if (layout)
		w.newline();
	for (auto i : doc.order)
		i < doc.ops.size() ? w.op(doc.ops[i]) : w.frag(doc.frags.at(i - doc.ops.size()));
	for (const auto& e : doc.extra)
	{
		w.raw(e);
		w.newline();
	}
	doc.text = w.out;
}

void renderPlain(Doc& doc)
{
	Src zero { std::vector<uint64_t> {} };
	render(zero, doc, 0);
}

JV genInputValue(Src& src, const MSchema& m, const TypeRef& type, size_t depth)
{
	if (!type.outerNonNull() && src.coin(1, 6))
		return JV::null();
	if (!type.lists.empty())
	{
		std::vector<JV> r;
		for (size_t i = 0, n = src.size(0, depth > 2 ? 1 : 3); i < n; ++i)
			r.push_back(genInputValue(src, m, type.element(), depth + 1));
		return JV::makeList(std::move(r));
	}
	const auto* t = m.type(type.name);
	if (t && t->kind == Kind::Enum)
		return src.coin() ? JV::enumeration(t->values[src.below(t->values.size())].name) : [&] {
			auto s = JV::string(t->values[src.below(t->values.size())].name);
			s.fromJson = true;
			return s;
		}();
	if (t && t->kind == Kind::Input)
	{
		JV r = JV::makeMap();
		for (const auto& in : t->inputs)
			if (in.required() || (depth < 4 && src.coin(3, 5)))
				r.set(in.name, genInputValue(src, m, in.type, depth + 1));
		return r;
	}
	if (type.name == "Int")
		return JV::integer(genInt32(src));
	if (type.name == "Float")
		return src.coin(1, 3) ? JV::integer(genInt32(src)) : JV::real(genDouble(src));
	if (type.name == "Boolean")
		return JV::boolean(src.coin());
	if (type.name == "String")
		return JV::string(genText(src, 6));
	if (type.name == "ID")
		return genLiteral(src, m, type).value;
	switch (src.below(depth > 2 ? 4 : 6))
	{
		case 0: return JV::integer(genInt32(src));
		case 1: return JV::string(genText(src, 4));
		case 2: return JV::boolean(src.coin());
		case 3: return JV::real(genDouble(src));
		case 4: return JV::makeList({ genInputValue(src, m, TypeRef { {}, false, type.name }, depth + 1) });
		default: return JV::makeMap({ { "k", genInputValue(src, m, TypeRef { {}, false, type.name }, depth + 1) } });
	}
}

JV genVariables(Src& src, const MSchema& m, const Op& op, bool extras)
{
	JV r = JV::makeMap();
	for (const auto& v : op.vars)
	{
		const bool mayOmit = v.def || !v.type.outerNonNull();
		if (mayOmit && src.coin(1, 4))
			continue;
		r.set(v.name, genInputValue(src, m, v.strict ? v.type.withOuter(true) : v.type));
	}
	if (extras && src.coin(1, 5))
		r.set("undeclared", JV::integer(1));
	if (r.map.size() > 1 && src.coin(1, 3))
		std::reverse(r.map.begin(), r.map.end());
	return r;
}

JV operationVariables(const Op& op, const JV& supplied)
{
	JV r = JV::makeMap();
	for (const auto& v : op.vars)
	{
		if (const auto* p = supplied.find(v.name))
			r.set(v.name, *p);
		else if (v.def)
			r.set(v.name, *evaluate(*v.def, JV::makeMap()));
	}
	return r;
}

std::optional<JV> evaluate(const Val& v, const JV& variables)
{
	switch (v.kind)
	{
		case Val::Null: return JV::null();
		case Val::Var:
		{
			const auto* p = variables.find(v.text);
			return p ? std::make_optional(*p) : std::nullopt;
		}
		case Val::List:
		{
			JV r = JV::makeList();
			for (const auto& e : v.list)
			{
				auto x = evaluate(e, variables);
				r.list.push_back(x ? *x : JV::null());
			}
			return r;
		}
		case Val::Object: return evaluateArgs(v.fields, variables);
		default: return v.value;
	}
}

JV evaluateArgs(const std::vector<std::pair<std::string, Val>>& args, const JV& variables)
{
	JV r = JV::makeMap();
	for (const auto& [n, e] : args)
		if (auto x = evaluate(e, variables))
			r.map.emplace_back(n, *x);
	return r;
}

JV evaluateDirs(const std::vector<Dir>& dirs, const JV& variables)
{
	JV r = JV::makeMap();
	for (const auto& d : dirs)
		r.map.emplace_back(d.name, evaluateArgs(d.args, variables));
	return r;
}

bool skipped(const std::vector<Dir>& dirs, const JV& variables)
{
	for (const auto& d : dirs)
		if (d.name == "skip" || d.name == "include")
		{
			const auto v = evaluate(d.args.at(0).second, variables);
			if (v && v->kind == JV::Bool && v->b == (d.name == "skip"))
				return true;
		}
	return false;
}

} // namespace h
