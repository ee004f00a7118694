R = 'record.py'
W = "            return f.name in whitelist_keys or not (f.tags & blacklist_tags)"
V = "            return f.name in whitelist_keys \\\n                   or include_defaults or not (f.has_default and f.is_default(v))"
BUGS = [
    ('e-wl-ignored', ['C13'], [(R, W, "            return not (f.tags & blacklist_tags)")]),
    ('e-wl-value', ['C13'], [(R, V, "            return include_defaults or not (f.has_default and f.is_default(v))")]),
    ('e-bl-all', ['C13'], [(R, W, "            return f.name in whitelist_keys or not (f.tags and f.tags <= blacklist_tags)")]),
    ('e-str-wl', ['C13'], [(R, "        if isinstance(whitelist_keys, str):\n            whitelist_keys = frozenset([whitelist_keys])\n", "")]),
    ('e-tag-bl', ['C13'], [(R, "        if isinstance(blacklist_tags, Tag):\n            blacklist_tags = frozenset([blacklist_tags])\n", "")]),
    ('e-swallow', ['C13'], [(R, "                    if field.name not in missing_ok:\n", "                    if field.name not in missing_ok and not include_defaults:\n")]),
    ('e-swallow-all', ['C13'], [(R, "                except AttributeError:\n                    if field.name not in missing_ok", "                except Exception:\n                    if field.name not in missing_ok")]),
    ('e-missing-default', ['C13'], [(R, "                    if include_defaults and field.has_default:", "                    if field.has_default:")]),
    ('e-rev', ['C13'], [(R, "            if sort == -1:\n                name_values = sorted(name_values, reverse=True)", "            if sort == -1:\n                name_values = sorted(name_values)")]),
    ('e-sortkey', ['C13'], [(R, "key=lambda t: sort(t[0])", "key=lambda t: sort(t[1])")]),
    ('e-private', ['C13'], [(R, "                if not export_field(field):", "                if field.name.startswith('_') or not export_field(field):")]),
    ('e-none', ['C13'], [(R, "                    if export_value(field, v):", "                    if v is not None and export_value(field, v):")]),
    ('e-missing-break', ['C13'], [(R, "                if not export_field(field):\n                    continue", "                if not export_field(field):\n                    break")]),
    ('s-add-order', ['C29'], [(R, "            for key, _ in _rev_select.keys_to_add:\n                extraction_dict.pop(key, _)\n            for to_remove in _rev_select.keys_to_remove:\n                extraction_dict[to_remove] = cls._MockField(name=to_remove)\n", "            for to_remove in _rev_select.keys_to_remove:\n                extraction_dict[to_remove] = cls._MockField(name=to_remove)\n            for key, _ in _rev_select.keys_to_add:\n                extraction_dict.pop(key, _)\n")]),
    ('s-rename-new', ['C29'], [(R, "            for old, new in _rev_select.keys_to_rename:\n                missing_ok.add(new)\n", "            for old, new in _rev_select.keys_to_rename:\n")]),
    ('s-rename-old-missing', ['C29'], [(R, "                missing_ok.add(new)\n                missing_ok.add(old)\n", "                missing_ok.add(new)\n")]),
    ('s-mayberename-new', ['C29'], [(R, "                missing_ok.add(new)\n                missing_ok.add(old)\n", "                missing_ok.add(old)\n")]),
    ('s-maybeadd', ['C29'], [(R, "                missing_ok.add(key)\n", "")]),
    ('s-maybeadd-default', ['C29'], [(R, "                if key in extraction_dict:\n", "                if key not in extraction_dict:\n")]),
    ('s-mock-newname', ['C29'], [(R, "                extraction_dict[old] = cls._MockField(name=old)\n            for key, _ in _rev", "                extraction_dict[old] = cls._MockField(name=new)\n            for key, _ in _rev")]),
    ('s-add-kept', ['C29'], [(R, "                extraction_dict.pop(key, _)\n", "                missing_ok.add(key)\n")]),
    ('s-remove-field', ['C29'], [(R, "            for to_remove in _rev_select.keys_to_remove:\n                extraction_dict[to_remove] = cls._MockField(name=to_remove)", "            for to_remove in _rev_select.keys_to_remove:\n                extraction_dict.pop(to_remove, None)")]),
    ('s-remove-setdefault', ['C29'], [(R, "            for to_remove in _rev_select.keys_to_remove:\n                extraction_dict[to_remove] = cls._MockField(name=to_remove)", "            for to_remove in _rev_select.keys_to_remove:\n                if to_remove not in extraction_dict:\n                    extraction_dict[to_remove] = cls._MockField(name=to_remove)")]),
    ('s-mock-default', ['C29'], [(R, "        has_default = False", "        has_default = True")]),
]
SAME = [
    ('e-inline', [(R, "                if not export_field(field):\n                    continue\n", "                if field.name not in whitelist_keys and field.tags & blacklist_tags:\n                    continue\n")]),
    ('e-disjoint', [(R, W, "            return f.name in whitelist_keys or f.tags.isdisjoint(blacklist_tags)")]),
    ('e-values', [(R, V, "            if include_defaults or f.name in whitelist_keys:\n                return True\n            if not f.has_default:\n                return True\n            return not f.is_default(v)")]),
    ('e-list', [(R, "        def tuples():\n            # inner function to lazily get the key-value tuples\n", "        def tuples():\n            return list(iter_tuples())\n\n        def iter_tuples():\n")]),
    ('e-sort-ternary', [(R, "            if sort == -1:\n                name_values = sorted(name_values, reverse=True)\n            elif callable(sort):\n                name_values = sorted(name_values, key=lambda t: sort(t[0]))\n            else:\n                name_values = sorted(name_values)\n", "            if callable(sort) and sort != -1:\n                name_values = sorted(name_values, key=lambda pair: sort(pair[0]))\n            else:\n                name_values = sorted(name_values, reverse=sort == -1)\n")]),
    ('e-append', [(R, "        def tuples():\n", "        collected = []\n\n        def tuples():\n"), (R, "        return dict(name_values)", "        for k, v in name_values:\n            collected.append((k, v))\n        return dict(collected)")]),
    ('e-shortcut', [(R, W, "            if not blacklist_tags:\n                return True\n            return f.name in whitelist_keys or not (f.tags & blacklist_tags)")]),
    ('e-dictcomp', [(R, "        return dict(name_values)", "        return {k: v for k, v in name_values}")]),
    ('s-update', [(R, "                missing_ok.add(new)\n                missing_ok.add(old)\n", "                missing_ok.update((old, new))\n")]),
    ('s-reorder', [(R, "            for old, new in _rev_select.keys_to_rename:\n                missing_ok.add(new)\n                extraction_dict[old] = cls._MockField(name=old)\n", "            for old, new in _rev_select.keys_to_rename:\n                extraction_dict[old] = cls._MockField(name=old)\n                missing_ok.add(new)\n")]),
    ('s-merge-loops', [(R, "            missing_ok = set(missing_ok)\n            extraction_dict = dict(extraction_dict)\n", "            missing_ok = {*missing_ok}\n            extraction_dict = {**extraction_dict}\n")]),
    ('s-helper', [(R, "            for to_remove in _rev_select.keys_to_remove:\n                extraction_dict[to_remove] = cls._MockField(name=to_remove)", "            def take(key):\n                extraction_dict[key] = cls._MockField(name=key)\n            for to_remove in _rev_select.keys_to_remove:\n                take(to_remove)")]),
    ('s-pop-none', [(R, "extraction_dict.pop(key, _)", "extraction_dict.pop(key, None)")]),
]
