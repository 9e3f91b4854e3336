"""Planted changes: each breaks a property, passes the tests, and comes with a demonstration."""
PLANTS = []
T = "ocelot/transformations/"


def plant(id, property, file, old, new, needs, breaks, demo, edits=None):
    PLANTS.append(dict(id=id, property=property, file=T + file if file else None, old=old, new=new, needs=needs,
                       breaks=breaks, demo=demo,
                       edits=[(T + f, o, n) for f, o, n in edits] if edits else None))


plant("c02-normalize-epsilon", "C02", "utils.py",
      "def normalize_reference_production_amount(dataset, log=True, epsilon=1e-14):",
      "def normalize_reference_production_amount(dataset, log=True, epsilon=1e-3):",
      "a production amount close to but not equal to one",
      "reference products of for example 1.0005 are left unnormalised",
      """
      from ocelot.transformations.utils import choose_reference_product_exchange
      rp = {'id': 'a', 'name': 'a', 'type': 'reference product', 'amount': 1.0005}
      ds = {'name': 'n', 'filepath': 'f', 'exchanges': [rp, {'id': 'e', 'name': 'e', 'type': 'to environment', 'amount': 2.}]}
      out = choose_reference_product_exchange(ds, rp)
      check(close(out['exchanges'][0]['amount'], 1), out)
      """)

plant("c03-zero-byproduct", "C03", "cutoff/allocation.py",
      """                                 if exc['type'] == 'byproduct'
                                 and exc['amount'] != 0)""",
      """                                 if exc['type'] == 'byproduct'
                                 and exc['amount'] > 0)""",
      "an activity whose only allocatable by-product has a negative amount",
      "negative allocatable by-products are ignored when the method is chosen",
      """
      from ocelot.transformations.cutoff.allocation import choose_allocation_method
      ds = {'name': 'n', 'type': 'transforming activity', 'exchanges': [
          {'name': 'a', 'type': 'reference product', 'amount': 1., 'byproduct classification': 'allocatable product'},
          {'name': 'b', 'type': 'byproduct', 'amount': -1., 'byproduct classification': 'allocatable product'}]}
      check(choose_allocation_method(ds) == 'economic', choose_allocation_method(ds))
      """)

plant("c04-recycling-keeps-uncertainty", "C04", "cutoff/wastes.py",
      """    rp = get_single_reference_product(dataset)
    rp['type'] = 'from technosphere'
    rp = scale_exchange(rp, -1)
    return economic_allocation(dataset)


def recycling_2_allocation""",
      """    rp = get_single_reference_product(dataset)
    rp['type'] = 'from technosphere'
    rp['amount'] = abs(rp['amount'])
    return economic_allocation(dataset)


def recycling_2_allocation""",
      "a recycling activity whose reference product has an uncertainty distribution",
      "the consumed scrap keeps the uncertainty of its negative amount",
      """
      from ocelot.transformations.cutoff.wastes import recycling_allocation
      ds = {'name': 'n', 'filepath': 'f', 'type': 'transforming activity', 'exchanges': [
          {'id': 's', 'name': 's', 'type': 'reference product', 'amount': -2., 'byproduct classification': 'recyclable',
           'uncertainty': {'type': 'triangular', 'minimum': -3., 'mode': -2., 'maximum': -1.}},
          {'id': 'b', 'name': 'b', 'type': 'byproduct', 'amount': 1., 'byproduct classification': 'allocatable product',
           'properties': [{'name': 'price', 'amount': 2.}]}]}
      out = recycling_allocation(ds)
      s = [e for e in out[0]['exchanges'] if e['id'] == 's'][0]
      u = s.get('uncertainty', {})
      check(u.get('minimum') == 1. and u.get('maximum') == 3., s)
      """)

plant("c05-merge-shared-child", "C05", "cutoff/combined.py",
      "        exc['amount'] += lookup.get(exc['id'], 0)\n",
      "        exc['amount'] += lookup.get(exc['id'], 0) if exc.get('formula') or exc['amount'] else 0\n",
      "an input that is zero in the first subdivided dataset but not in the second",
      "burdens only found in the second source of a merged by-product are lost",
      """
      from ocelot.transformations.cutoff.combined import merge_byproducts
      def mk(rp, inp):
          return {'name': 'n', 'filepath': 'f', 'exchanges': [
              {'id': 'c', 'name': 'c', 'type': 'reference product', 'amount': rp},
              {'id': 'i', 'name': 'i', 'type': 'from technosphere', 'amount': inp}]}
      out = list(merge_byproducts([mk(1., 0.), mk(1., 7.)]))
      check(out[0]['exchanges'][1]['amount'] == 7., out)
      """)

plant("c07-lognormal-negative-flag", "C07", "uncertainty/distributions.py",
      "            obj['uncertainty']['negative'] = not obj['uncertainty'].get('negative')\n",
      "            obj['uncertainty']['negative'] = True\n",
      "scaling a negative lognormal exchange by a negative factor",
      "a positive exchange is flagged as negative",
      """
      from ocelot.transformations.uncertainty import scale_exchange
      e = {'amount': -2., 'uncertainty': {'type': 'lognormal', 'mean': 2., 'mu': 0.69, 'negative': True, 'variance': .1,
           'variance with pedigree uncertainty': .1}}
      e = scale_exchange(e, -3)
      check(e['amount'] == 6 and not e['uncertainty']['negative'], e)
      """)

plant("c08-triangular-swapped-bounds", "C08", "uncertainty/distributions.py",
      "        if ud['mode'] < ud['minimum'] or ud['mode'] > ud['maximum']:\n            return remove_exchange_uncertainty(obj)",
      "        if ud['mode'] < ud['minimum'] and ud['mode'] > 0 or ud['mode'] > ud['maximum']:\n            return remove_exchange_uncertainty(obj)",
      "a triangular distribution whose negative amount lies below the minimum",
      "an invalid distribution is kept",
      """
      from ocelot.transformations.uncertainty.distributions import Triangular
      o = {'amount': -5., 'uncertainty': {'type': 'triangular', 'minimum': -3., 'maximum': 4., 'mode': 1.}}
      check('uncertainty' not in Triangular.repair(o), o)
      """)

plant("c09-boundary-year", "C09", "uncertainty/pedigree.py",
      "        elif current_value == 1 and difference <= 7:", "        elif current_value == 1 and difference < 7:",
      "a temporal score of 1 and exactly 7 years", "the score is 4 instead of 3",
      """
      from ocelot.transformations.uncertainty.pedigree import adjust_pedigree_matrix_time
      e = adjust_pedigree_matrix_time({'end date': '2010-12-31'}, {'pedigree matrix': {'temporal correlation': 1}}, 2017)
      check(e['pedigree matrix']['temporal correlation'] == 3, e)
      """)

plant("c31-zero-links", "C31", "cutoff/cleanup.py",
      "                              if not exc['amount']\n",
      "                              if exc['amount'] <= 0\n",
      "an activity link on an exchange with a negative amount", "links of negative exchanges are dropped",
      """
      from ocelot.transformations.cutoff.cleanup import drop_zero_amount_activity_links
      ds = {'name': 'n', 'exchanges': [{'name': 'a', 'amount': -1., 'activity link': 'x', 'type': 'from technosphere'}]}
      check('activity link' in drop_zero_amount_activity_links([ds])[0]['exchanges'][0])
      """)

plant("c01-true-value-zero", "C01", "utils.py",
      "            'has true value': bool(get_property_by_name(exc, 'true value relation')),",
      "            'has true value': bool(get_numerical_property(exc, 'true value relation')),",
      "a product whose true value relation is zero, next to one with a true value and one without",
      "a worthless product gets burdens by its price, and shares no longer add up",
      """
      from ocelot.transformations.cutoff.economic import economic_allocation
      def p(name, amount, price, tv, type='reference product'):
          props = [{'name': 'price', 'amount': price}]
          if tv is not None:
              props.append({'name': 'true value relation', 'amount': tv})
          return {'id': name, 'name': name, 'type': type, 'amount': amount, 'byproduct classification': 'allocatable product',
                  'properties': props}
      ds = {'name': 'a', 'filepath': 'f', 'exchanges': [p('A', 4., 2., 3.), p('B', 1., 1., 0., 'byproduct'),
            p('C', 1., 5., None, 'byproduct'), {'id': 'e', 'name': 'e', 'type': 'to environment', 'amount': 5.}]}
      out = economic_allocation(ds)
      got = [e['amount'] for d in out for e in d['exchanges'] if e['id'] == 'e']
      check(close(got[1], 0) and close(got[0], 5 * 9 / 14 / 4), got)
      """)

plant("c06-rename-once", "C06", "cutoff/wastes.py",
      "        found.add(exc['name'])\n        exc['name'] += RC_STRING",
      "        if exc['name'] in found:\n            continue\n        found.add(exc['name'])\n        exc['name'] += RC_STRING",
      "two activities producing the same recyclable", "only the first producer's flow is cut off",
      """
      from ocelot.transformations.cutoff.wastes import rename_recyclable_content_exchanges
      mk = lambda: {'name': 'n', 'exchanges': [{'name': 's', 'type': 'byproduct', 'byproduct classification': 'recyclable',
                                               'amount': 1.}]}
      out = rename_recyclable_content_exchanges([mk(), mk()])
      check(all(d['exchanges'][0]['name'] == 's, Recycled Content cut-off' for d in out), out)
      """)

plant("c11-zero-pv", "C11", "parameterization/production_volumes.py",
      "        if not pv:\n            continue", "        if not pv or not pv['amount']:\n            continue",
      "a parameterised production volume that is zero", "its formula stays, and is recalculated later",
      """
      from ocelot.transformations.parameterization.production_volumes import create_pv_parameters
      ds = {'name': 'n', 'parameters': [], 'exchanges': [{'name': 'a', 'amount': 1, 'unit': 'kg',
            'production volume': {'amount': 0., 'formula': 'x - x', 'variable': 'v'}}]}
      out = create_pv_parameters([ds])[0]
      check('formula' not in out['exchanges'][0]['production volume'] and len(out['parameters']) == 1, out)
      """)

plant("c10-reserved-either", "C10", "parameterization/python_compatibility.py",
      "            if 'formula' in exc:\n                exc['formula'] = check_and_fix_formula(ds, exc['formula'])",
      "            elif 'formula' in exc:\n                exc['formula'] = check_and_fix_formula(ds, exc['formula'])",
      "an object named with a reserved word whose formula also uses a reserved word",
      "the formula keeps the reserved word and loses its meaning",
      """
      from ocelot.transformations.parameterization.python_compatibility import replace_reserved_words
      ds = {'name': 'n', 'exchanges': [{'name': 'a', 'amount': 1, 'formula': '1 + class', 'variable': 'yield'}]}
      out = replace_reserved_words([ds])[0]['exchanges'][0]
      check(out['formula'] == '1 + CLASS' and out['variable'] == 'YIELD', out)
      """)

plant("c12-dropped-properties", "C12", "utils.py",
      """        for prop in exc.get('properties', []):
            if "variable" in prop or "formula" in prop:""",
      """        for prop in exc.get('properties', []):
            if exc.get('type') == 'dropped product':
                continue
            if "variable" in prop or "formula" in prop:""",
      "a formula using a variable of a property of a product that was dropped in an earlier step",
      "variables of properties of dropped products are no longer found, so formulas using them fail",
      """
      from ocelot.transformations.parameterization import recalculate
      ds = {'name': 'n', 'exchanges': [
          {'name': 'a', 'amount': 0., 'type': 'dropped product', 'properties': [
              {'name': 'mass', 'amount': 3., 'variable': 'm', 'formula': 'q * 2'}]},
          {'name': 'b', 'amount': 1., 'type': 'from technosphere', 'formula': 'm + 2'}],
          'parameters': [{'name': 'q', 'variable': 'q', 'amount': 2.}]}
      try:
          recalculate(ds)
      except Exception as e:
          check(False, e)
      check(ds['exchanges'][1]['amount'] == 6, ds)
      """)

LINK = "locations/linking.py"
plant("c13-product-substring", "C13", LINK,
      "                      if ds['reference product'] == link['name']]",
      "                      if link['name'] in ds['reference product']]",
      "an activity that was split into products of which one name contains the other",
      "the link to the shorter name is taken for ambiguous and stays unresolved",
      """
      from ocelot.transformations.locations.linking import actualize_activity_links
      mk = lambda rp, code: {'id': 'a', 'code': code, 'name': 'n', 'location': 'GLO', 'reference product': rp, 'exchanges': []}
      user = {'id': 'u', 'code': 'cu', 'name': 'u', 'location': 'GLO', 'reference product': 'x', 'exchanges': [
          {'name': 'heat', 'amount': 1., 'activity link': 'a', 'type': 'from technosphere'}]}
      actualize_activity_links([mk('heat', 'c1'), mk('heat, waste', 'c2'), user])
      check(user['exchanges'][0].get('code') == 'c1', user)
      """)

plant("c14-parent-link", "C14", "activity_links.py",
      "            if exc['activity link'] == ds['id']:\n                # Market losses",
      "            if exc['activity link'] in (ds['id'], ds.get('parent')):\n                # Market losses",
      "an activity that consumes its parent's product over an activity link",
      "what it consumes is not subtracted from the parent's production volume",
      """
      from ocelot.transformations.activity_links import add_hard_linked_production_volumes
      rp = lambda name, pv: {'name': name, 'type': 'reference product', 'amount': 1., 'production volume': {'amount': pv}}
      a = {'id': 'a', 'parent': None, 'name': 'a', 'location': 'GLO', 'filepath': 'f', 'exchanges': [rp('steel', 10.)]}
      b = {'id': 'b', 'parent': 'a', 'name': 'b', 'location': 'CH', 'filepath': 'f', 'exchanges': [rp('wire', 3.), {
          'name': 'steel', 'type': 'from technosphere', 'amount': 2., 'activity link': 'a'}]}
      add_hard_linked_production_volumes([a, b])
      check(a['exchanges'][0]['production volume'].get('subtracted activity link volume') == 6, a)
      """)

plant("c15-overlap-neighbours", "C15", "locations/_topology.py",
      "        return sum(len(o) for o in faces) != len(set.union(*faces))",
      "        return any(one.intersection(two) for one, two in zip(faces, faces[1:]))",
      "three regions of which only the first and the last overlap",
      "overlapping activities are accepted when another one is listed between them",
      """
      from ocelot.transformations.locations import topology
      check(topology.overlaps(['FR', 'US', 'RER']) is True)
      check(topology.overlaps(['FR', 'US', 'DE']) is False)
      """)

plant("c17-shared-row", "C17", "locations/markets.py",
      """            suppliers_row = topology.resolve_row(
                [obj['location'] for obj in group
            ])""",
      """            suppliers_row = topology.resolve_row(
                [obj['location'] for obj in suppliers
            ])""",
      "two technologies that are known for different regions",
      "the rest-of-world suppliers are defined by the regions of other technologies, so regional markets lose or gain suppliers",
      """
      from ocelot.transformations.locations.markets import add_suppliers_to_markets
      def mk(name, type_, loc):
          return {'name': name, 'type': type_, 'location': loc, 'reference product': 'p', 'code': name + loc,
                  'technology level': 'current', 'exchanges': [{'name': 'p', 'unit': 'kg', 'type': 'reference product',
                  'amount': 1., 'production volume': {'amount': 1.}}]}
      data = [mk('m', 'market activity', 'FR'), mk('m', 'market activity', 'RoW'), mk('one', 'transforming activity', 'FR'),
              mk('one', 'transforming activity', 'RoW'), mk('two', 'transforming activity', 'DE'),
              mk('two', 'transforming activity', 'RoW')]
      add_suppliers_to_markets(data)
      # RoW of 'two' includes France, so the market for the rest of the world does not cover it
      check(sorted(s['code'] for s in data[1]['suppliers']) == ['oneRoW', 'twoDE'], data[1]['suppliers'])
      """)

plant("c18-tiny-volumes", "C18", "locations/markets.py",
      "        scale_factor = supply_exc['production volume']['amount'] / total_pv",
      "        scale_factor = supply_exc['production volume']['amount'] / max(total_pv, 1e-9)",
      "suppliers with very small production volumes",
      "the inputs of the market no longer add up to its output",
      """
      from ocelot.transformations.locations.markets import allocate_suppliers
      s = lambda c, pv: {'name': 'p', 'unit': 'kg', 'location': c, 'code': c, 'production volume': {'amount': pv}}
      ds = {'name': 'm', 'location': 'GLO', 'reference product': 'p', 'exchanges': [
          {'name': 'p', 'type': 'reference product', 'amount': 1.}], 'suppliers': [s('a', 1e-12), s('b', 3e-12)]}
      allocate_suppliers(ds)
      check(close(sum(e['amount'] for e in ds['exchanges'][1:]), 1), ds)
      """)

plant("c20-row-by-product", "C20", None, None, None,
      "two activities that make the same product with rest-of-world datasets",
      "rest-of-world consumers are placed outside the regions of other activities too, and get the wrong markets",
      """
      from ocelot.transformations.locations.linking import link_consumers_to_markets
      def mk(name, type_, loc, rp, excs=()):
          return {'name': name, 'type': type_, 'location': loc, 'reference product': rp, 'code': name + loc, 'technology level': 'current',
                  'exchanges': [{'name': rp, 'type': 'reference product', 'amount': 1., 'unit': 'kg',
                                 'production volume': {'amount': 1.}}] + list(excs)}
      inp = {'name': 'p', 'type': 'from technosphere', 'amount': 1., 'unit': 'kg'}
      user = mk('one', 'transforming activity', 'RoW', 'x', [inp])
      data = [user, mk('one', 'transforming activity', 'US', 'x'), mk('two', 'transforming activity', 'FR', 'x'),
              mk('m', 'market activity', 'FR', 'p'), mk('m', 'market activity', 'RoW', 'p')]
      link_consumers_to_markets(data)
      # the consumer is everywhere but in the US: the French market is within its territory
      check([e['code'] for e in user['exchanges'] if e['type'] == 'from technosphere'] == ['mFR'], user)
      """,
      edits=[(LINK, "    ta_mapping = dict(toolz.groupby(\n        'name',\n        filter(ta_filter, data)",
              "    ta_mapping = dict(toolz.groupby(\n        'reference product',\n        filter(ta_filter, data)"),
             (LINK, "                dct = ta_mapping\n            else:\n                dct = ma_mapping\n",
              "                dct, key = ta_mapping, 'reference product'\n            else:\n                dct, key = ma_mapping, 'name'\n"),
             (LINK, "[x['location'] for x in dct[ds['name']]]", "[x['location'] for x in dct[ds[key]]]")])

plant("c24-empty-result", "C24", "../wrapper.py",
      "            _ = lambda ds: self.func(ds) if self.filter_function(ds) else [ds]",
      "            _ = lambda ds: (self.filter_function(ds) and self.func(ds)) or [ds]",
      "a filtered function that returns no datasets for one dataset", "the dataset stays although it was removed",
      """
      from ocelot.wrapper import TransformationWrapper
      def f(ds):
          return [] if ds == 3 else [ds, -ds]
      check(TransformationWrapper(f, lambda x: x > 1)([1, 2, 3]) == [1, 2, -2], "")
      """)

plant("c26-zero-properties", "C26", "validation.py",
      "                missing = MANDATORY.difference({p['name'] for p in exc['properties']})",
      "                missing = MANDATORY.difference({p['name'] for p in exc['properties'] if p['amount']})",
      "a mandatory property that is zero", "the report lists properties as missing that are there",
      """
      logging.disable(logging.NOTSET)
      from ocelot.transformations import ensure_mandatory_properties
      names = ["dry mass", "water in wet mass", "water content", "wet mass", "carbon content fossil", "carbon content non-fossil"]
      rows = []
      class H(logging.Handler):
          def emit(self, record):
              rows.append(record.msg)
      log = logging.getLogger('ocelot')
      log.addHandler(H())
      log.setLevel(logging.INFO)
      ensure_mandatory_properties([{'name': 'n', 'exchanges': [
          {'name': 'e', 'properties': [{'name': n, 'amount': 0. if n == 'water content' else 1.} for n in names]}]}])
      check(rows == [], rows)
      """)

plant("c27-small-amounts", "C27", "../io/brightway2.py",
      "            if exc['amount']\n            and refinery_gas", "            if abs(exc['amount']) > 1e-12\n            and refinery_gas",
      "an emission of a very small amount, for example a radionuclide or dioxin", "the emission is left out of the Brightway2 database",
      """
      from ocelot.io.brightway2 import Brightway2Converter
      ds = {k: 'x' for k in ("code", "economic scenario", "end date", "filepath", "location", "name", "start date",
                             "technology level", 'dataset author', 'data entry')}
      ds['exchanges'] = [{'name': 'p', 'type': 'reference product', 'amount': 1., 'unit': 'kg', 'code': 'x'},
                         {'name': 'dioxin', 'type': 'to environment', 'amount': 3e-15, 'unit': 'kg', 'compartment': 'air',
                          'subcompartment': 'urban'}]
      out = list(Brightway2Converter.convert_to_brightway2([ds], 'db'))[0]
      check(len(out['exchanges']) == 2, out)
      """)

plant("c28-zero-conditional", "C28", "../io/extract_ecospold2.py",
      "            and data['amount'] < 0\n", "            and data['amount'] <= 0\n",
      "a market with a linked byproduct of zero", "it is taken for a constrained market",
      """
      import ocelot.io.extract_ecospold2 as m
      from lxml import objectify
      xml = '<intermediateExchange id="i" amount="%s" activityLinkId="a" productionVolumeAmount="1"><name>n</name>' \\
            '<unitName>kg</unitName><outputGroup>2</outputGroup></intermediateExchange>'
      flag = lambda a: m.extract_exchange({'type': 'market activity'}, objectify.fromstring(xml % a))['conditional exchange']
      check(flag('-1') is True and flag('0') is False and flag('1') is False, "")
      """)

plant("c30-volumes-after-allocation", "C30", "locations/__init__.py", None, None,
      "a market that is supplied by a market group, with production volumes other than the documented ones of its suppliers",
      "market groups are filled by the volumes that markets had before they were linked",
      """
      from ocelot.transformations.locations import link_markets_by_pv
      def mk(name, type_, loc, pv, excs=()):
          return {'id': name + loc, 'name': name, 'type': type_, 'location': loc, 'technology level': 'current', 'start date': '2010',
                  'end date': '2011', 'filepath': 'f', 'exchanges': [{'name': 'p', 'type': 'reference product', 'amount': 1.,
                  'unit': 'kg', 'production volume': {'amount': pv}}] + list(excs)}
      data = [mk('make', 'transforming activity', 'FR', 1.), mk('make', 'transforming activity', 'DE', 3.),
              mk('m', 'market activity', 'FR', 50.), mk('m', 'market activity', 'DE', 50.), mk('g', 'market group', 'GLO', 7.)]
      for f in link_markets_by_pv:
          data = f(data)
      group = next(d for d in data if d['type'] == 'market group')
      check(sorted(e['amount'] for e in group['exchanges'] if e['type'] == 'from technosphere') == [.25, .75], group)
      """,
      edits=[("locations/__init__.py", """    add_suppliers_to_markets,
    update_market_production_volumes,
    delete_global_with_zero_pv_when_regional_present,
    partial(delete_global_with_zero_pv_when_regional_present, kind='transforming activity'),
    allocate_all_market_suppliers,
    link_market_group_suppliers,
    partial(update_market_production_volumes, kind='market group'),
    partial(allocate_all_market_suppliers, kind='market group'),
    # Commented out during development
    # delete_suppliers_list,
    # drop_zero_pv_row_datasets,
    link_consumers_to_recycled_content_activities,
    link_consumers_to_markets,
    add_reference_product_codes,
    log_and_delete_unlinked_exchanges,
)

link_markets_by_pv_ecoinvent_row""", """    add_suppliers_to_markets,
    delete_global_with_zero_pv_when_regional_present,
    partial(delete_global_with_zero_pv_when_regional_present, kind='transforming activity'),
    allocate_all_market_suppliers,
    link_market_group_suppliers,
    update_market_production_volumes,
    partial(update_market_production_volumes, kind='market group'),
    partial(allocate_all_market_suppliers, kind='market group'),
    # Commented out during development
    # delete_suppliers_list,
    # drop_zero_pv_row_datasets,
    link_consumers_to_recycled_content_activities,
    link_consumers_to_markets,
    add_reference_product_codes,
    log_and_delete_unlinked_exchanges,
)

link_markets_by_pv_ecoinvent_row""")])

plant("c32-prune-late", "C32", "consequential/__init__.py", None, None,
      "a market with a supplier whose technology level is not the most modern",
      "the market's production volume includes suppliers that it does not use, so groups and consumers are split wrongly",
      """
      from ocelot.transformations.consequential import link_markets_by_technology_level
      def mk(name, type_, loc, pv, level='current'):
          return {'id': name + loc, 'name': name, 'type': type_, 'location': loc, 'technology level': level, 'start date': '2010',
                  'end date': '2011', 'filepath': 'f', 'exchanges': [{'name': 'p', 'type': 'reference product', 'amount': 1.,
                  'unit': 'kg', 'production volume': {'amount': pv}}]}
      data = [mk('old', 'transforming activity', 'FR', 4., 'old'), mk('new', 'transforming activity', 'FR', 1., 'new'),
              mk('new', 'transforming activity', 'DE', 1., 'new'), mk('m', 'market activity', 'FR', 1.),
              mk('m', 'market activity', 'DE', 1.), mk('m', 'market activity', 'RoW', 1.)][:5]
      for f in link_markets_by_technology_level:
          data = f(data)
      pv = {d['location']: d['exchanges'][0]['production volume']['amount'] for d in data if d['type'] == 'market activity'}
      check(pv == {'FR': 1., 'DE': 1.}, pv)
      """,
      edits=[("consequential/__init__.py", "    prune_suppliers_by_technology_level,\n    update_market_production_volumes,\n    partial(add",
              "    update_market_production_volumes,\n    prune_suppliers_by_technology_level,\n    partial(add")])

plant("c22-only-markets", "C22", "consequential/market_linking.py",
      '    MARKETS = ("market activity", "market group")', '    MARKETS = ("market activity",)',
      "a market group with suppliers of several technology levels", "the group keeps its outdated suppliers",
      """
      from ocelot.transformations.consequential.market_linking import prune_suppliers_by_technology_level
      ds = {'type': 'market group', 'suppliers': [{'name': 'a', 'technology level': 'old'}, {'name': 'b', 'technology level': 'new'}]}
      prune_suppliers_by_technology_level([ds])
      check([s['name'] for s in ds['suppliers']] == ['b'], ds)
      """)

plant("c23-links-of-markets", "C23", "consequential/constrained_markets.py",
      "            if not exc.get('conditional exchange')\n",
      "            if ds['type'] != 'market activity'\n            and not exc.get('conditional exchange')\n",
      "a market with an ordinary activity link to an activity that is constrained by another market",
      "the link that can't be fulfilled stays",
      """
      from ocelot.transformations.consequential import delete_activity_links_to_constrained_markets
      mk = lambda i, *e: {'id': i, 'name': i, 'location': 'GLO', 'type': 'market activity', 'exchanges': list(e)}
      one = mk('a', {'name': 'x', 'amount': -1., 'activity link': 't', 'conditional exchange': True})
      two = mk('b', {'name': 'x', 'amount': 1., 'activity link': 't'})
      delete_activity_links_to_constrained_markets([one, two])
      check('activity link' not in two['exchanges'][0] and 'activity link' in one['exchanges'][0], two)
      """)

plant("c29-entry-optional", "C29", "../io/validate_internal.py",
      "    'data entry': str,", "    Optional('data entry'): str,",
      "a dataset without the name of its data entry person", "the invalid dataset is accepted; converting it stops with KeyError",
      """
      from ocelot.io import dataset_schema
      from voluptuous import Invalid
      ds = {k: 'x' for k in ('economic scenario', 'end date', 'filepath', 'id', 'location', 'name', 'start date',
                             'dataset author', 'data entry', 'ISIC classification')}
      ds.update({'exchanges': [], 'parameters': [], 'access restricted': 'public', 'parent': None, 'technology level': 'new',
                 'type': 'market activity'})
      dataset_schema(ds)
      del ds['data entry']
      try:
          dataset_schema(ds)
          check(False, "accepted")
      except Invalid:
          pass
      """)

plant("c21-trimmed-names", "C21", "utils.py",
      '    string = "".join(dataset.get(field, \'\').lower() for field in fields)',
      '    string = "".join(dataset.get(field, \'\').lower() for field in fields if field != "end date" or dataset.get("start date"))',
      "datasets with an end date but no start date", "datasets of different end dates get the same code and are rejected",
      """
      from ocelot.transformations.utils import activity_hash
      check(activity_hash({'name': 'a', 'end date': '2010'}) != activity_hash({'name': 'a', 'end date': '2011'}))
      """)

plant("c25-cache-per-name", "C25", "../filesystem.py",
      "            (os.path.abspath(data_path) + __io_version__).encode(\"utf-8\")",
      "            (os.path.basename(os.path.abspath(data_path)) + __io_version__).encode(\"utf-8\")",
      "two source directories of the same name", "the data cached for one is used for the other",
      """
      import os, tempfile
      import ocelot.filesystem as fs
      with tempfile.TemporaryDirectory() as d:
          fs.get_cache_directory = lambda: d
          a, b = (fs.get_cache_filepath_for_data_path(os.path.join(d, x, 'datasets')) for x in ('3.3', '3.4'))
          check(a != b, a)
      """)

plant("c19-first-parent", "C19", "locations/markets.py", None, None,
      "a market group that supplies two larger market groups", "only one of them gets its production volume",
      """
      from ocelot.transformations.locations.markets import update_market_production_volumes
      s = lambda code: {'name': 'p', 'code': code, 'production volume': {'amount': 1.}}
      def mk(loc, *sup):
          return {'name': 'g', 'type': 'market group', 'location': loc, 'code': loc, 'reference product': 'p', 'exchanges': [
              {'name': 'p', 'type': 'reference product', 'amount': 1., 'production volume': {'amount': 0.}}], 'suppliers': list(sup)}
      data = [mk('CH', s('a'), s('b'), s('c')), mk('RER', s('CH')), mk('GLO', s('CH'))]
      update_market_production_volumes(data, kind='market group')
      check([d['exchanges'][0]['production volume']['amount'] for d in data] == [3, 3, 3], data)
      """,
      edits=[("locations/markets.py", "                if other == ds:\n                    continue\n",
              "                if other == ds or not any(s['code'] == ds['code'] for s in other['suppliers']):\n                    continue\n"),
             ("locations/markets.py", "                        supplier['production volume'] = {'amount': pv}\n",
              "                        supplier['production volume'] = {'amount': pv}\n                break\n")])

plant("c16-linked-away", "C16", "locations/markets.py", None, None,
      "a rest-of-world activity whose whole volume is taken over activity links",
      "the dataset that the activity links lead to is deleted",
      """
      from ocelot.transformations.locations import delete_global_with_zero_pv_when_regional_present as f
      mk = lambda loc, **pv: {'name': 'n', 'type': 'transforming activity', 'reference product': 'a', 'location': loc, 'exchanges': [
          {'name': 'a', 'type': 'reference product', 'amount': 1., 'production volume': pv}]}
      data = [mk('CH', amount=1.), mk('RoW', **{'amount': 0, 'original amount': 5., 'subtracted activity link volume': 6.})]
      check(len(f(data, kind='transforming activity')) == 2)
      """,
      edits=[("locations/markets.py", "            assert not original_production_volume(row)\n",
              "            assert not production_volume(row)\n"),
             ("locations/markets.py", "from ...data_helpers import original_production_volume\n",
              "from ...data_helpers import production_volume\n")])

plant("c33-upper-case", "C33", "../io/validate_ecospold2.py",
      'if filename.lower().endswith(".spold")', 'if filename.endswith(".spold")',
      "a directory with an invalid file whose extension has capitals", "the file is not validated and the directory is reported valid",
      """
      import contextlib, io, os, tempfile
      from ocelot.io.validate_ecospold2 import validate_directory_against_xsd as f
      with tempfile.TemporaryDirectory() as d:
          open(d + '/s.xsd', 'w').write('<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema"><xs:element name="a" type="xs:integer"/></xs:schema>')
          os.mkdir(d + '/in')
          open(d + '/in/x.spold', 'w').write('<a>1</a>')
          open(d + '/in/y.SPOLD', 'w').write('<b>1</b>')
          out = io.StringIO()
          with contextlib.redirect_stdout(out):
              f(d + '/in', d + '/s.xsd')
          check('y.SPOLD' in out.getvalue(), out.getvalue())
      """)

LISTED = """
      import logging
      rows = []
      class H(logging.Handler):
          def emit(self, r):
              if r.msg.get('type') == 'table element': rows.append(tuple(r.msg['data']))
      log = logging.getLogger('ocelot')
      logging.disable(logging.NOTSET)
      log.disabled, log.propagate = False, False
      log.setLevel(logging.INFO)
      log.addHandler(H())"""

plant("c34-group-volume", "C34", "locations/markets.py",
      """                     total_pv, missing_inputs_pv, missing_market_pv, pv)
        })
    return data

update_market""",
      """                     total_pv, missing_inputs_pv, missing_market_pv,
                     total_pv - missing_inputs_pv - missing_market_pv)
        })
    return data

update_market""",
      "a market whose activity links take more than its suppliers produce, or a supplier whose volume was already zero",
      "the table lists a net volume that is not the volume of the market",
      LISTED + """
      from ocelot.transformations.locations import update_market_production_volumes as f
      rp = lambda pv, **kw: {'name': 'a', 'type': 'reference product', 'amount': 1., 'production volume': dict(kw, amount=pv)}
      f([{'name': 'm', 'type': 'market activity', 'location': 'GLO', 'code': 'm', 'suppliers': [rp(2., **{'original amount': 5.})], 'exchanges': [
          rp(0., **{'subtracted activity link volume': 3.})]}])
      check(rows and rows[0][-1] == 0, rows)
      """)

plant("c34-level-count", "C34", "consequential/technology_levels.py",
      "                'data': (rp, len(datasets))",
      "                'data': (rp, sum(1 for ds in datasets if ds['technology level'] in ('undefined', 'current')))",
      "a product with undefined, current and other technology levels", "the number of datasets of the product is wrong in the table",
      LISTED + """
      from ocelot.transformations.consequential.technology_levels import log_conflicting_technology_levels as f
      f([{'name': l, 'type': 'transforming activity', 'reference product': 'a', 'technology level': l} for l in ('undefined', 'current', 'new')])
      check(rows == [('a', 3)], rows)
      """)

plant("c34-consequential-flag", "C34", "cutoff/cleanup.py",
      """            if has_consequential_property(exc):
                logger.info({""",
      """            if any(p['name'] == 'consequential' for p in exc.get('properties', [])):
                logger.info({""",
      "an exchange whose property consequential is zero", "the table lists exchanges as removed that are kept",
      LISTED + """
      from ocelot.transformations.cutoff.cleanup import remove_consequential_exchanges as f
      mk = lambda n, a: {'name': n, 'amount': 2., 'properties': [{'name': 'consequential', 'amount': a}]}
      f([{'name': 'd', 'exchanges': [mk('a', 1), mk('b', 0)]}])
      check(rows == [('d', 'a', 2.)], rows)
      """)

plant("c34-volume-sign", "C34", "production_volumes.py",
      "                        'data': (ds['name'], exc['name'], abs(exc['amount'] * scale))",
      "                        'data': (ds['name'], exc['name'], exc['amount'] * scale)",
      "a treatment activity with a negative amount and a positive by-product", "the table lists a negative production volume that was not assigned",
      LISTED + """
      from ocelot.transformations import add_pv_to_allocatable_byproducts as f
      mk = lambda n, t, a, pv: {'name': n, 'type': t, 'amount': a, 'byproduct classification': 'allocatable product', 'production volume': {'amount': pv}}
      f([{'name': 't', 'exchanges': [mk('w', 'reference product', -1., 4.), mk('b', 'byproduct', 2., 0)]}])
      check(rows == [('t', 'b', 8.)], rows)
      """)

plant("c26-gap-time", "C26", "../report.py",
      "                'time': line['time'] - data['functions'][self.index]['start'],",
      "                'time': line['time'] - data['times'][-2][1],",
      "time that passes between the end of a function and the start of the next one (saving the intermediate result)",
      "the time of saving one result is listed as time of the next function",
      """
      import json, os, tempfile
      from unittest import mock
      import jinja2
      from ocelot.report import HTMLReport
      f = lambda i, t, u: [{'type': 'function start', 'name': 'f%d' % i, 'description': '', 'table': None, 'index': i, 'count': 1, 'time': t},
                           {'type': 'function end', 'name': 'f%d' % i, 'description': '', 'table': None, 'index': i, 'count': 1, 'time': u}]
      lines = [{'type': 'report start', 'uuid': 'x', 'count': 1, 'time': 0.}] + f(0, 1., 2.) + f(1, 10., 12.) + [{'type': 'report end', 'time': 13.}]
      page = []
      with tempfile.TemporaryDirectory() as d:
          p = os.path.join(d, 'report.log.json')
          open(p, 'w').write('\\n'.join(json.dumps(l) for l in lines))
          with mock.patch.object(jinja2.Template, 'render', lambda t, **k: page.append(k) or ''):
              HTMLReport(p)
      check([x['time'] for x in page[0]['functions']] == [1., 2.], [x['time'] for x in page[0]['functions']])
      """)

plant("c02-shared-copy", "C02", "utils.py",
      "    obj = deepcopy(dataset)\n    if not exchange['amount']:",
      "    obj = dict(dataset)\n    if not exchange['amount']:",
      "a parameterised multi-output activity whose allocated datasets are changed in place later",
      "all datasets of an allocated activity share one list of parameters, so changing one changes the others",
      """
      from ocelot.transformations.cutoff.economic import economic_allocation
      mk = lambda n, t: {'id': n, 'name': n, 'type': t, 'amount': 1., 'byproduct classification': 'allocatable product',
                         'properties': [{'name': 'price', 'amount': 1.}]}
      ds = {'name': 'n', 'filepath': 'f', 'parameters': [{'name': 'q', 'variable': 'q', 'amount': 1.}],
            'exchanges': [mk('a', 'reference product'), mk('b', 'byproduct')]}
      a, b = economic_allocation(ds)
      a['parameters'][0]['amount'] = 5.
      check(b['parameters'][0]['amount'] == 1, b)
      """)

plant("c12-only-exchanges", "C12", "parameterization/recalculation.py",
      "    for obj in iterate_all_uncertainties(dataset):",
      "    for obj in dataset['exchanges']:",
      "a formula and an uncertainty distribution on a production volume, a property or a parameter",
      "the uncertainty of recalculated production volumes, properties and parameters keeps describing the old amount",
      """
      from ocelot.transformations.parameterization.recalculation import recalculate
      p = {'name': 'p', 'id': 'p', 'variable': 'p', 'amount': 1., 'formula': '2 * 3', 'uncertainty': {
          'type': 'normal', 'mean': 1., 'variance': 0.1, 'variance with pedigree uncertainty': 0.1}}
      recalculate({'name': 'n', 'exchanges': [], 'parameters': [p]})
      check(p['amount'] == 6 and p['uncertainty']['mean'] == 6, p)
      """)

plant("c17-case-of-names", "C17", "locations/markets.py",
      " in toolz.groupby('name', suppliers).items():",
      " in toolz.groupby(lambda x: x['name'].lower(), suppliers).items():",
      "two activities whose names differ only in upper case, with places that overlap",
      "independent activities count as one technology: their places are subtracted from each other, or rejected as overlapping",
      """
      from ocelot.transformations.locations import add_suppliers_to_markets
      mk = lambda c, n, t, l: {'name': n, 'type': t, 'location': l, 'code': c, 'reference product': 'p', 'technology level': 'x', 'exchanges': [
          {'name': 'p', 'type': 'reference product', 'amount': 1., 'production volume': {'amount': 1.}}]}
      dss = [mk('m', 'market for p', 'market activity', 'GLO'), mk('a', 'making p, in house', 'transforming activity', 'CH'),
             mk('b', 'making p, In house', 'transforming activity', 'CH')]
      try:
          add_suppliers_to_markets(dss)
      except Exception as E:
          check(False, E)
      check(sorted(s['code'] for s in dss[0]['suppliers']) == ['a', 'b'], dss[0]['suppliers'])
      """)

plant("c19-two-suppliers", "C19", "locations/markets.py",
      "                for supplier in other['suppliers']:",
      "                for supplier in other['suppliers'][:2]:",
      "a market group that lists another group after two markets", "the group is supplied according to the old volume of its member group",
      """
      from ocelot.transformations.locations import update_market_production_volumes as f
      rp = lambda pv: {'name': 'p', 'type': 'reference product', 'amount': 1., 'production volume': {'amount': pv}}
      sup = lambda c, pv: dict(rp(pv), code=c)
      inner = {'name': 'g', 'type': 'market group', 'location': 'CH', 'code': 'z', 'reference product': 'p', 'exchanges': [rp(0.)], 'suppliers': [sup('x', 4.)]}
      outer = {'name': 'g', 'type': 'market group', 'location': 'GLO', 'code': 'y', 'reference product': 'p', 'exchanges': [rp(0.)],
               'suppliers': [sup('a', 1.), sup('b', 2.), sup('z', 0.)]}
      f([outer, inner], kind='market group')
      check(outer['suppliers'][2]['production volume']['amount'] == 4, outer['suppliers'])
      """)

plant("c24-repeated-step", "C24", "../collection.py",
      "    return list(unwrapper(lst))", "    return list(dict.fromkeys(unwrapper(lst)))",
      "a collection that applies the same function twice", "the second application is dropped",
      """
      from ocelot.collection import Collection
      f = lambda data: data + ['f']
      g = lambda data: data + ['g']
      c = Collection('c', f, Collection('d', g, f))
      check(c([]) == ['f', 'g', 'f'], c([]))
      """)

plant("c22-treated-byproducts", "C22", "consequential/byproducts.py",
      "                  if exc['type'] == 'byproduct'}", "                  if exc['type'] == 'byproduct'\n                  and exc.get('byproduct classification') != 'waste'}",
      "a byproduct classified as waste that nothing produces or treats", "the byproduct without alternative producer is accepted",
      """
      from ocelot.errors import MissingAlternativeProducer
      from ocelot.transformations.consequential import ensure_byproducts_have_alternative_production as f
      ds = {'name': 'n', 'exchanges': [{'name': 'a', 'type': 'reference product', 'amount': 1.},
            {'name': 'slag', 'type': 'byproduct', 'amount': 1., 'byproduct classification': 'waste'}]}
      try:
          f([ds])
          ok = False
      except MissingAlternativeProducer:
          ok = True
      check(ok, "accepted")
      """)

plant("c23-waste-class-kept", "C23", "consequential/constrained_markets.py",
      "            target_exc['byproduct classification'] = 'allocatable product'",
      "            target_exc.setdefault('byproduct classification', 'allocatable product')",
      "a constrained market whose target activity consumes an exchange that is classified as waste",
      "the new reference product stays classified as waste",
      """
      from ocelot.transformations.consequential import handle_constrained_markets
      market = {'id': 'm', 'name': 'm', 'location': 'GLO', 'exchanges': [{'name': 'x', 'type': 'byproduct', 'amount': -1.,
                'activity link': 't', 'conditional exchange': True}]}
      target = {'id': 't', 'name': 't', 'location': 'GLO', 'exchanges': [{'name': 'y', 'type': 'reference product', 'amount': 1.},
                {'name': 'x', 'type': 'from technosphere', 'amount': 2., 'byproduct classification': 'waste'}]}
      handle_constrained_markets([market, target])
      check(target['exchanges'][1]['byproduct classification'] == 'allocatable product', target)
      """)

plant("c26-repeated-rows", "C26", "../report.py",
      "            data['functions'][self.index]['tabledata'].append(line['data'])",
      "            if line['data'] not in data['functions'][self.index]['tabledata']:\n"
      "                data['functions'][self.index]['tabledata'].append(line['data'])",
      "a step that logs two identical rows (two exchanges with equal names and amounts)", "the report lists only one of them",
      """
      import json, os, tempfile
      from unittest import mock
      import jinja2
      from ocelot.report import HTMLReport
      lines = [{'type': 'report start', 'uuid': 'x', 'count': 1, 'time': 0.},
               {'type': 'function start', 'name': 'f', 'description': '', 'table': {'title': 't', 'columns': ['a']}, 'index': 0, 'count': 1, 'time': 1.},
               {'type': 'table element', 'data': ['x'], 'time': 1.}, {'type': 'table element', 'data': ['x'], 'time': 1.},
               {'type': 'function end', 'name': 'f', 'description': '', 'table': None, 'index': 0, 'count': 1, 'time': 2.}, {'type': 'report end', 'time': 3.}]
      page = []
      with tempfile.TemporaryDirectory() as d:
          p = os.path.join(d, 'report.log.json')
          open(p, 'w').write('\\n'.join(json.dumps(l) for l in lines))
          with mock.patch.object(jinja2.Template, 'render', lambda t, **k: page.append(k) or ''):
              HTMLReport(p)
      check(len(page[0]['functions'][0]['tabledata']) == 2, page[0]['functions'])
      """)

plant("c28-link-to-itself", "C28", "../io/extract_ecospold2.py",
      "    if exc.get('activityLinkId'):", "    if exc.get('activityLinkId') and exc.get('activityLinkId') != dataset['id']:",
      "a market that consumes its own product (transmission losses), with a link to itself", "the link is lost, so the input is linked elsewhere or rejected",
      """
      import ocelot.io.extract_ecospold2 as m
      from lxml import objectify
      xml = '<intermediateExchange id="i" amount="1" activityLinkId="a"><name>n</name>' \\
            '<unitName>kg</unitName><inputGroup>5</inputGroup></intermediateExchange>'
      out = m.extract_exchange({'type': 'market activity', 'id': 'a'}, objectify.fromstring(xml))
      check(out.get('activity link') == 'a', out)
      """)

plant("c29-older-ids", "C29", "utils.py",
      "            exc['original id'] = copy.copy(exc['id'])", "            exc.setdefault('original id', copy.copy(exc['id']))",
      "data that already went through a system model", "the original id is that of an older run instead of the id in the data",
      """
      from ocelot.transformations import copy_original_exchange_id
      ds = {'exchanges': [{'id': 'new', 'original id': 'old'}]}
      check(copy_original_exchange_id([ds])[0]['exchanges'][0]['original id'] == 'new', ds)
      """)

plant("c33-errors-by-place", "C33", "../io/validate_ecospold2.py",
      "            errors[err.msg] = {", "            errors[str(err.path)] = {",
      "two datasets with different errors in the same field", "only the later error is reported",
      """
      import os, tempfile
      from unittest import mock
      from voluptuous import Invalid
      import ocelot.io.validate_ecospold2 as m
      def schema(ds):
          raise Invalid(ds['why'], ['type'])
      with tempfile.TemporaryDirectory() as d:
          os.chdir(d)
          with mock.patch.object(m, 'extract_directory', lambda *a, **k: [{'why': 'first reason'}, {'why': 'second reason'}]), \\
                  mock.patch.object(m, 'dataset_schema', schema):
              m.validate_directory('in')
          log = open('ocelot-validation-errors.log').read()
          os.chdir('/')
      check('first reason' in log and 'second reason' in log, log)
      """)

plant("c06-many-recyclables", "C06", "cutoff/wastes.py",
      "        for exc in recyclables:\n            rc =", "        for exc in list(recyclables)[:5]:\n            rc =",
      "an activity with more than five recyclable by-products", "the others have no consuming activity",
      """
      from ocelot.transformations.cutoff.wastes import create_recycled_content_datasets
      common = dict.fromkeys(('access restricted', 'economic scenario', 'end date', 'filepath', 'id', 'start date',
                              'technology level', 'dataset author', 'data entry'), 'x')
      excs = [{'type': 'byproduct', 'byproduct classification': 'recyclable', 'id': str(i), 'name': 'scrap %d' % i, 'unit': 'kg'}
              for i in range(8)]
      out = create_recycled_content_datasets([dict(common, exchanges=excs)])
      check(sorted(d['name'] for d in out[1:]) == ['scrap %d' % i for i in range(8)], [d.get('name') for d in out])
      """)

plant("c11-calculated-duplicates", "C11", "parameterization/validation.py",
      "            if param['variable'] in found:", "            if param['variable'] in found and 'formula' not in param:",
      "two calculated values with the same variable name", "the dataset is accepted although the name is ambiguous",
      """
      from ocelot.errors import ParameterizationError
      from ocelot.transformations.parameterization.validation import variable_names_are_unique
      ds = {'name': 'd', 'filepath': 'f', 'exchanges': [], 'parameters': [{'variable': 'a', 'amount': 1., 'formula': '1'},
                                                       {'variable': 'a', 'amount': 2., 'formula': '2'}]}
      try:
          variable_names_are_unique([ds])
          check(False, 'accepted')
      except ParameterizationError:
          pass
      """)

plant("c13-case-of-products", "C13", "locations/linking.py",
      "                      if ds['reference product'] == link['name']]", "                      if ds['reference product'].lower() == link['name'].lower()]",
      "an allocated activity with two products whose names differ in case", "the link is ambiguous and is never given a code",
      """
      from ocelot.transformations.locations.linking import actualize_activity_links
      link = {'type': 'from technosphere', 'name': 'Pb', 'activity link': 'a', 'amount': 1.}
      data = [{'id': 'a', 'name': 'n', 'location': 'GLO', 'reference product': p, 'code': p + '!', 'exchanges': []} for p in ('Pb', 'PB')]
      data.append({'id': 'b', 'name': 'c', 'location': 'GLO', 'reference product': 'x', 'code': 'c', 'exchanges': [link]})
      actualize_activity_links(data)
      check(link.get('code') == 'Pb!', link)
      """)

plant("c14-calculated-volume", "C14", "production_volumes.py",
      "                if not exc['production volume']['amount']:",
      "                if not exc['production volume']['amount'] and not exc['production volume'].get('formula'):",
      "a by-product whose production volume has a formula that gave zero", "the by-product has no production volume and drops out of the markets",
      """
      from ocelot.transformations import add_pv_to_allocatable_byproducts
      ds = {'name': 'd', 'exchanges': [
          {'type': 'reference product', 'name': 'r', 'amount': 2., 'production volume': {'amount': 10.}},
          {'type': 'byproduct', 'byproduct classification': 'allocatable product', 'name': 'b', 'amount': 3.,
           'production volume': {'amount': 0., 'formula': 'a * b'}}]}
      add_pv_to_allocatable_byproducts([ds])
      check(close(ds['exchanges'][1]['production volume']['amount'], 15), ds)
      """)

plant("c18-volume-replaced", "C18", "locations/markets.py",
      "        rp['production volume']['amount'] = pv\n",
      "        rp['production volume'] = {'amount': pv, 'original total': rp['production volume'].get('original total')}\n",
      "a market whose product is consumed through activity links, updated and then read by a later step",
      "the consumption through activity links and the comments of the volume are lost",
      """
      from ocelot.transformations.locations import update_market_production_volumes
      rp = {'type': 'reference product', 'name': 'p', 'amount': 1., 'production volume': {'amount': 1., 'comment': 'c', 'subtracted activity link volume': 3.}}
      ds = {'type': 'market activity', 'name': 'm', 'location': 'GLO', 'reference product': 'p', 'exchanges': [rp],
            'suppliers': [{'production volume': {'amount': 10.}}]}
      update_market_production_volumes([ds])
      pv = rp['production volume']
      check(close(pv['amount'], 7) and pv.get('subtracted activity link volume') == 3 and pv.get('comment') == 'c', pv)
      """)

plant("c21-stale-codes", "C21", "identifying.py",
      "        code = activity_hash(ds)\n", "        code = ds.get('code') or activity_hash(ds)\n",
      "datasets that already have codes when they are copied by allocation or split by location", "different datasets share a code or are rejected as identical",
      """
      from ocelot.transformations.identifying import add_unique_codes
      a = {'name': 'n', 'reference product': 'p', 'unit': 'kg', 'location': 'CH', 'start date': '1', 'end date': '2', 'code': 'old'}
      out = add_unique_codes([a, dict(a, location='DE')])
      check(out[0]['code'] != out[1]['code'], out)
      """)

plant("c12-amounts-of-zero", "C12", "parameterization/recalculation.py",
      "                              if exc.get(key) is not None}", "                              if exc.get(key)}",
      "a named parameter whose amount is exactly zero", "the dataset cannot be recalculated",
      """
      from ocelot.transformations.parameterization.recalculation import recalculate
      ds = {'exchanges': [{'type': 'from technosphere', 'name': 'x', 'amount': 5., 'formula': '2 + a'}],
            'parameters': [{'variable': 'a', 'name': 'a', 'amount': 0.}]}
      try:
          recalculate(ds)
      except Exception as e:
          check(False, e)
      check(close(ds['exchanges'][0]['amount'], 2), ds)
      """)

plant("c29-row-model-accepts-repeated-ids", "C29", "../configuration.py",
      "ecoinvent-specific RoW handling',\n    ensure_ids_are_unique,\n", "ecoinvent-specific RoW handling',\n",
      "a database with two activities of the same id, in the second cutoff model", "the database is accepted and links lead to either of the two",
      """
      from ocelot.configuration import cutoff_config_ecoinvent_row
      from ocelot.errors import IdenticalDatasets
      def ds(name, type_):
          rp = {'type': 'reference product', 'name': 'p', 'amount': 1., 'id': name + 'x', 'unit': 'kg', 'properties': [],
                'tag': 'intermediateExchange', 'byproduct classification': 'allocatable product', 'production volume': {'amount': 4.}}
          return {'name': name, 'id': 'same', 'location': 'GLO', 'type': type_, 'exchanges': [rp], 'parameters': [], 'filepath': 'f',
                  'start date': '1', 'end date': '2', 'parent': None, 'technology level': 'current', 'access restricted': 'public',
                  'economic scenario': 'x', 'data entry': 'x', 'dataset author': 'x'}
      try:
          cutoff_config_ecoinvent_row([ds('maker', 'transforming activity'), ds('market', 'market activity')])
          check(False, 'accepted')
      except IdenticalDatasets:
          pass
      """)

plant("c08-unrepaired-in-models", "C08", "parameterization/__init__.py",
      "    repair_all_uncertainty_distributions,\n    fix_known_bad_formula_strings,\n", "    fix_known_bad_formula_strings,\n",
      "a system model applied to data with swapped bounds", "the model keeps the invalid uncertainty",
      """
      from ocelot.transformations import fix_ecoinvent_parameters
      x = {'name': 'x', 'id': 'x', 'type': 'from technosphere', 'amount': 2., 'uncertainty': {
          'type': 'triangular', 'minimum': 3., 'maximum': 1., 'pedigree matrix': {}}}
      fix_ecoinvent_parameters([{'name': 'd', 'exchanges': [x], 'parameters': []}])
      check(x['uncertainty']['minimum'] == 1 and x['uncertainty']['maximum'] == 3, x)
      """)

plant("c11-volume-formulas-survive", "C11", "__init__.py",
      "    ensure_production_exchanges_have_production_volume,\n    add_pv_to_allocatable_byproducts,\n    create_pv_parameters,\n)",
      "    ensure_production_exchanges_have_production_volume,\n    add_pv_to_allocatable_byproducts,\n)",
      "a system model applied to production volumes with formulas", "production volumes keep formulas and variables",
      """
      from ocelot.transformations import pv_cleanup
      x = {'name': 'x', 'id': 'x', 'type': 'reference product', 'amount': 2., 'unit': 'kg',
           'production volume': {'amount': 3., 'formula': '1 + 2', 'variable': 'v'}}
      data = [{'name': 'd', 'id': 'd', 'type': 'transforming activity', 'filepath': 'd', 'exchanges': [x], 'parameters': []}]
      data = pv_cleanup(data)
      check('formula' not in x['production volume'] and data[0]['parameters'][0]['variable'] == 'v', data)
      """)

plant("c13-link-checked-before-fixed", "C13", "activity_links.py",
      "    fix_35_activity_links,\n    check_activity_link_validity,\n    add_hard", "    check_activity_link_validity,\n    fix_35_activity_links,\n    add_hard",
      "a database with the link that is known to be wrong", "the database is rejected instead of corrected",
      """
      from ocelot.transformations.activity_links import manage_activity_links
      x = {'name': 'x', 'id': 'x', 'type': 'reference product', 'amount': 2., 'unit': 'kg', 'production volume': {'amount': 3.}}
      y = {'name': 'y', 'id': 'y', 'type': 'from technosphere', 'amount': 2., 'unit': 'kg',
           'activity link': '25edb027-d7c0-4756-a051-cab82e4f6248'}
      data = [{'name': 'd', 'id': 'd', 'type': 'transforming activity', 'filepath': 'd', 'exchanges': [x, y], 'parameters': []}]
      try:
          manage_activity_links(data)
      except Exception as e:
          check(False, repr(e))
      check('activity link' not in y, y)
      """)

plant("c16-confidential-too-late", "C16", "locations/__init__.py",
      '''    "Link markets and market groups",
    label_reference_product,
    delete_whitelisted_zero_pv_market_datsets,
    assign_fake_pv_to_confidential_datasets,
    correct_natural_gas_pipeline_location,
    relabel_global_to_row,
    check_no_row_market_groups,
    add_unique_codes,
    actualize_activity_links,
    add_recycled_content_suppliers_to_markets,
    add_suppliers_to_markets,
''', '''    "Link markets and market groups",
    label_reference_product,
    delete_whitelisted_zero_pv_market_datsets,
    correct_natural_gas_pipeline_location,
    relabel_global_to_row,
    check_no_row_market_groups,
    add_unique_codes,
    actualize_activity_links,
    add_recycled_content_suppliers_to_markets,
    add_suppliers_to_markets,
    assign_fake_pv_to_confidential_datasets,
''',
      "a confidential producer next to another one", "the confidential producer supplies nothing to its market",
      """
      from ocelot.configuration import cutoff_config
      def act(name, kind, product, volume, sign=1):
          return {'name': name, 'id': name, 'type': kind, 'filepath': name, 'location': 'GLO', 'parameters': [], 'parent': None,
                  'data entry': 'x', 'ISIC classification': '1', 'technology level': 'current', 'exchanges': [
                      {'name': product, 'id': 'e' + name, 'type': 'reference product', 'tag': 'intermediateExchange', 'amount': 1.,
                       'unit': 'kg', 'properties': [], 'conditional exchange': False, 'byproduct classification': 'allocatable product',
                       'production volume': {'amount': volume}}]}
      data = cutoff_config([act('latex production', 'transforming activity', 'latex', 0.), act('mill', 'transforming activity', 'latex', 3.),
                            act('market for latex', 'market activity', 'latex', 0.)])
      m = [d for d in data if d['name'] == 'market for latex'][0]
      amounts = sorted(e['amount'] for e in m['exchanges'] if e['type'] == 'from technosphere')
      check(amounts == [0.25, 0.75], amounts)
      """)

plant("c31-byproduct-links-survive", "C31", "../configuration.py",
      '''    handle_waste_outputs,
    cutoff_allocation,
    drop_rp_activity_links,
    link_markets_by_pv_ecoinvent_row,
''', '''    handle_waste_outputs,
    drop_rp_activity_links,
    cutoff_allocation,
    link_markets_by_pv_ecoinvent_row,
''',
      "an allocatable by-product with an activity link", "the dataset of the by-product keeps the link",
      """
      from ocelot.configuration import cutoff_config_ecoinvent_row
      def made(name, kind, volume, **kw):
          return dict({'name': name, 'id': 'e' + name + kind[:1], 'type': kind, 'tag': 'intermediateExchange', 'amount': 1., 'unit': 'kg',
                       'properties': [{'name': 'price', 'amount': 2., 'unit': 'EUR'}], 'conditional exchange': False,
                       'byproduct classification': 'allocatable product', 'production volume': {'amount': volume}}, **kw)
      def act(name, kind, *excs):
          return {'name': name, 'id': name, 'type': kind, 'filepath': name, 'location': 'GLO', 'parameters': [], 'parent': None,
                  'data entry': 'x', 'ISIC classification': '1', 'technology level': 'current', 'exchanges': list(excs)}
      data = cutoff_config_ecoinvent_row([
          act('plant', 'transforming activity', made('steel', 'reference product', 3.),
              made('gas', 'byproduct', 4., **{'activity link': 'market for gas'})),
          act('market for gas', 'market activity', made('gas', 'reference product', 0., id='mg')),
          act('market for steel', 'market activity', made('steel', 'reference product', 0., id='ms'))])
      check(not any('activity link' in e for d in data for e in d['exchanges']), data)
      """)
