"""Source of properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md."""

P = []


def add(id, title, statement, text, why, files, mechanism, design, over=("inputs",), observe=None, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files,
                  mechanism=mechanism, design=design, observe=observe or [], state=state or []))


CUT = "ocelot/transformations/cutoff/"
TR = "ocelot/transformations/"

add("C01", "Economic allocation shares burdens by revenue",
    "Economic allocation of a multi-output activity gives one single-output dataset per allocatable product, in which "
    "every burden is the original burden times the product's share of total revenue (or of the revenue of the products "
    "with a true value relation, split by true value) per unit of product. The shares of one activity add up to one, so "
    "burdens are conserved. Product amounts, identities, metadata and the input dataset are otherwise preserved, and the new datasets share "
    "no exchanges or parameters with each other.",
    "all product amounts, prices, true values and burdens, all numbers of products and burdens within the bounds",
    "The tests allocate two or three datasets with fixed numbers; the guarantee is about every combination of prices, "
    "true values, signs, zeros and uncertainty kinds.",
    [CUT + "economic.py", CUT + "utils.py", TR + "utils.py"],
    [("allocation factors from revenue and true value", CUT + "economic.py"),
     ("applying factors and normalising", TR + "utils.py")],
    "economic_allocation is executed on datasets with symbolic prices, amounts, true values and burdens; the oracle "
    "recomputes the share of each product from the property text and compares every field of every dataset.")

add("C02", "Single-output datasets have one reference product of one unit",
    "Choosing a reference product yields an independent copy of the activity in which that product has amount +1 or -1 with its "
    "original sign and no uncertainty, every other allocatable product is zeroed as a dropped product, and every other "
    "exchange is multiplied by the allocation factor and divided by the product amount. Zero production is rejected, "
    "the original is untouched, and labelling records the name of the one reference product and rejects none or many.",
    "all amounts, factors, exchange mixes and uncertainty kinds within the bounds",
    "Tests use single fixed amounts; sign, zero, uncertainty kind and order of exchanges interact.",
    [TR + "utils.py", TR + "uncertainty/__init__.py", TR + "uncertainty/distributions.py"],
    [("choose_reference_product_exchange", TR + "utils.py"),
     ("normalize_reference_production_amount", TR + "utils.py"),
     ("label_reference_product", TR + "utils.py")],
    "The functions are executed on symbolic datasets and compared field by field with a reference single-output "
    "dataset.")

add("C03", "Every activity is allocated by the method its outputs call for",
    "The allocation method of an activity is a function of its kind and of the type, classification, sign and "
    "presence of properties of its exchanges, as documented for the cutoff system model. Allocating a set of "
    "activities applies exactly that method to each one independently, keeps the order, and returns a flat list of "
    "datasets.",
    "all combinations of dataset type, output classes, amounts and properties within the bounds; all orders of datasets",
    "The decision tree has many interacting conditions; tests sample one dataset per leaf.",
    [CUT + "allocation.py", CUT + "markets.py", CUT + "validation.py"],
    [("choose_allocation_method", CUT + "allocation.py"), ("cutoff_allocation", CUT + "allocation.py")],
    "The dataset's structure is chosen by solver-split variables and its amounts are symbolic; the oracle is a decision "
    "table written from the documentation, and the result of cutoff_allocation is compared with the reference "
    "allocation of each dataset.")

add("C04", "Waste treatment and recycling send burdens to the right product",
    "Allocating a waste treatment activity leaves all burdens with the treatment service, and every allocatable "
    "by-product is available as its own burden-free dataset. Allocating a recycling activity turns the material to be "
    "recycled into an input and shares all burdens over its allocatable by-products by economic allocation. The new "
    "datasets are independent copies.",
    "all amounts, prices, burdens, by-product counts and uncertainty kinds within the bounds",
    "Tests cover one waste and one recycling dataset with fixed values.",
    [CUT + "wastes.py", CUT + "validation.py"],
    [("waste_treatment_allocation", CUT + "wastes.py"), ("recycling_allocation", CUT + "wastes.py")],
    "Both functions are executed on symbolic datasets and compared with the reference allocation, including the "
    "activities that must be rejected.")

add("C05", "Combined production splits burdens per product before allocating",
    "A combined production activity is split into one dataset per reference product by recalculating its formulas with "
    "the other reference products switched off; by-products are then allocated economically, and datasets with the same "
    "product are merged by adding their exchanges. The amounts of the merged datasets equal what the formulas give for "
    "that product.",
    "all parameter values, product amounts, prices and formula placements within the bounds",
    "Tests use one hand-made parameterised dataset; the property depends on formulas, variables and merge order.",
    [CUT + "combined.py", TR + "parameterization/recalculation.py"],
    [("split / recalculate / merge", CUT + "combined.py")],
    "combined_production and its parts are executed with symbolic parameters; the oracle evaluates the same formulas "
    "with the other products at zero.")

add("C12", "Recalculation makes amounts equal to their formulas",
    "After recalculation every parameter, exchange, production volume and property with a formula has the value of that "
    "formula under the values of all variables of its dataset, whatever the storage order; a formula that divides by "
    "zero has the value zero. Values without a formula and everything else stay as they were, uncertainty follows the "
    "new amount, and a dataset with circular references is left alone without affecting the others.",
    "all variable values and all formula graphs, placements and orders within the bounds",
    "Tests evaluate a handful of formulas on fixed numbers.",
    [TR + "parameterization/recalculation.py", TR + "parameterization/uncertainty.py"],
    [("recalculate", TR + "parameterization/recalculation.py"),
     ("rescaling of uncertainty to the new amount", TR + "parameterization/uncertainty.py")],
    "recalculate (with the real asteval and bw2parameters interpreters) runs on symbolic values; shapes of formulas and "
    "their placement are chosen by solver-split variables; the oracle evaluates the same expression directly.")

add("C07", "Rescaling an exchange rescales its uncertainty with it",
    "Multiplying an exchange by a factor gives the exchange whose amount and uncertainty distribution are those of the "
    "factor times the original quantity, for every supported distribution and any sign of the factor; a zero factor "
    "removes the uncertainty. Scaling twice equals scaling once by the product, a factor of one changes nothing, other "
    "fields are untouched, and unsupported distributions are rejected.",
    "all amounts, factors and distribution parameters",
    "Tests rescale one object per distribution by one or two factors.",
    [TR + "uncertainty/__init__.py", TR + "uncertainty/distributions.py"],
    [("scale_exchange and the rescale methods", TR + "uncertainty/distributions.py")],
    "scale_exchange runs on exchanges of every distribution with symbolic parameters; the oracle is the algebra of "
    "f*X for each distribution; the dictionaries handed to stats_arrays are compared as well (math.log as an "
    "uninterpreted function, square roots defined by their square).")

add("C08", "Repair makes every uncertainty valid and consistent with its amount",
    "After repair every uncertainty distribution in every place of every dataset is centred on the amount it belongs to, "
    "has ordered bounds that contain it and a plausible variance consistent with its pedigree matrix, or has been removed "
    "because it carries no information or cannot hold. Amounts and all other data are unchanged, and a uniform "
    "distribution that excludes its amount is rejected.",
    "all amounts and distribution parameters, consistent or not, in all places of a dataset",
    "Tests repair one fixed example per branch; branches interact with signs, ties and zero.",
    [TR + "parameterization/uncertainty.py", TR + "uncertainty/distributions.py", TR + "utils.py"],
    [("repair_all_uncertainty_distributions", TR + "parameterization/uncertainty.py"),
     ("repair methods", TR + "uncertainty/distributions.py")],
    "repair_all_uncertainty_distributions runs on symbolic distributions attached to exchanges, production volumes, "
    "properties and parameters; the oracle states the repaired distribution directly.")

add("C09", "Pedigree scores add the published variance and age with time",
    "The variance added by a pedigree matrix is the sum of the published values of its scores. Moving an exchange to "
    "another year worsens its temporal score according to the number of years since the end of the dataset, never "
    "improves it, updates the total variance of lognormal distributions accordingly, and changes nothing else.",
    "all scores, all indicators, all pairs of years in range, all distributions",
    "Tests sample some cells of the tables.",
    [TR + "uncertainty/pedigree.py", TR + "uncertainty/__init__.py", TR + "uncertainty/distributions.py"],
    [("get_pedigree_variance", TR + "uncertainty/pedigree.py"),
     ("adjust_pedigree_matrix_time", TR + "uncertainty/pedigree.py")],
    "Scores and years are symbolic integers; the code's branches are followed by the solver and compared with the "
    "published tables.")

add("C06", "Wastes and recyclables become inputs, recyclables without burdens",
    "In the cutoff model every waste or recyclable by-product becomes an input with its amount, formula and uncertainty "
    "negated. Each recyclable flow is renamed with the 'Recycled Content cut-off' suffix and gets exactly one "
    "burden-free consuming activity producing one unit of it; after linking the suffix is removed from flow and "
    "reference product names. Everything else stays exactly as it was.",
    "all amounts, exchange mixes, classifications, formulas and uncertainty kinds within the bounds",
    "Tests use one dataset with fixed numbers per class.",
    [CUT + "wastes.py", CUT + "utils.py", TR + "uncertainty/__init__.py"],
    [("flip_non_allocatable_byproducts", CUT + "wastes.py"), ("handle_waste_outputs", CUT + "wastes.py")],
    "The transformations run on symbolic datasets whose exchange kinds are chosen by the solver; expected exchanges are "
    "built from the property text and compared field by field, including those that must not change; negated formulas "
    "are evaluated on symbolic variables.")

add("C10", "Rewriting formulas to Python keeps their meaning",
    "After the parameter fixes every formula of every exchange, property, production volume and parameter evaluates to "
    "the value the ecoinvent formula denotes (case-insensitive names, ^ and power(), if(), percentages, reserved words "
    "used as names, line breaks). Formulas that cannot be parsed are deleted and their amounts kept; everything else is "
    "unchanged.",
    "all formulas of the grammar up to the stated depth, all values of their variables, all places",
    "Tests check a few strings; nesting, case and names interact.",
    [TR + "parameterization/python_compatibility.py", TR + "parameterization/__init__.py",
     TR + "parameterization/known_ecoinvent_issues.py"],
    [("fix_math_formulas and helpers", TR + "parameterization/python_compatibility.py")],
    "The formula's tree is chosen by solver-split variables; the rewritten text is evaluated by the repository's own "
    "interpreter on symbolic values and the solver compares it with a direct evaluation of the tree.")

add("C11", "Variables keep pointing at the same quantities",
    "Variable names used twice in an activity are rejected and only those; implicit references become variables with "
    "the value of the object they refer to, reusing existing names, and unknown ones are rejected; production volume "
    "formulas move to new parameters without changing any value. Substituted formulas have the value of what they "
    "replace, and deparameterising leaves no formula, variable or parameter, all other data staying as it was.",
    "all placements and names of variables, all references and all amounts within the bounds",
    "Tests use one dataset per feature with fixed names and numbers.",
    [TR + "parameterization/implicit_references.py", TR + "parameterization/production_volumes.py",
     TR + "parameterization/validation.py", TR + "parameterization/known_ecoinvent_issues.py", TR + "cleanup.py"],
    [("replace_implicit_references", TR + "parameterization/implicit_references.py"),
     ("create_pv_parameters", TR + "parameterization/production_volumes.py"),
     ("variable_names_are_unique", TR + "parameterization/validation.py")],
    "The transformations run on datasets with symbolic amounts and solver-chosen names and references, then the real "
    "recalculation runs and the solver compares every amount with the value of the referenced object.")

add("C31", "Cutoff clean-up removes only what the model has no use for",
    "Clean-up drops the activity links of reference and dropped products and of zero amounts, exchanges whose "
    "'consequential' property is one, and the allocation method label. Markets of products other than waste that only have negative "
    "amounts are negated as a whole, and if only the reference product is negative it is negated with the inputs of the "
    "same name, each with its uncertainty. Every other link, exchange and field is kept as it was.",
    "all amounts, links, classifications and property values, for all mixes of exchanges within the bounds",
    "Tests sample one or two exchanges per rule.",
    [CUT + "cleanup.py", CUT + "utils.py", CUT + "markets.py"],
    [("drop_rp_activity_links and others", CUT + "cleanup.py"),
     ("adjust_market_signs_for_allocatable_products", CUT + "markets.py")],
    "Each step runs on symbolic datasets; whether an item is dropped is compared with the stated condition in both "
    "directions by the solver, and everything left is compared with a snapshot.")

CON = TR + "consequential/"
LOC = TR + "locations/"

add("C13", "Activity links lead to the one dataset that makes the product",
    "A database in which an activity link does not lead to exactly one product of its name in the target dataset is "
    "rejected, and only such a database. Links of non-production exchanges that name the dataset's parent are moved to "
    "the child, and the known wrong link is removed; after allocation a linked exchange gets the code of the one "
    "dataset with the target's id whose reference product it names. Nothing else changes.",
    "all link targets, names, types and classifications of exchanges within the bounds, in every order of datasets",
    "Validity depends on how names, classifications and targets combine over several datasets; tests have one example "
    "per error.",
    [TR + "activity_links.py", LOC + "linking.py"],
    [("check_activity_link_validity", TR + "activity_links.py"),
     ("update_activity_link_parent_child", TR + "activity_links.py"),
     ("actualize_activity_links", LOC + "linking.py")],
    "Names, targets, types and classifications are symbolic strings; the code's comparisons become formulas and the "
    "solver compares rejection, moved links and codes with the stated conditions in both directions.")

add("C14", "Production volumes account for by-products and hard links",
    "What activities consume over activity links (their amount times the largest ratio of production volume to amount of "
    "the consumer) is summed per product and recorded at the target, and subtracted from the production volume of "
    "transforming activities down to zero, keeping the original; markets keep theirs. Allocatable by-products without "
    "a volume get amount times that ratio as a non-negative volume, given volumes are kept, and activities without "
    "production are rejected.",
    "all amounts and production volumes, numbers of links and consumers within the bounds",
    "Several consumers, several links in a consumer, signs and clipping interact; tests use one fixed chain.",
    [TR + "activity_links.py", TR + "production_volumes.py", TR + "utils.py"],
    [("add_hard_linked_production_volumes", TR + "activity_links.py"),
     ("update_transforming_activity_production_volumes", TR + "activity_links.py"),
     ("add_pv_to_allocatable_byproducts", TR + "production_volumes.py"),
     ("get_biggest_pv_to_exchange_ratio", TR + "utils.py")],
    "The transformations run on datasets with symbolic amounts and volumes; the oracle recomputes the sums and the "
    "solver compares every volume and everything else.")

add("C15", "Geographic relations are those of the territories",
    "Rest-of-world stands for everything not covered by the given regions; whether a place is contained in, contains, "
    "or overlaps another, and the order of places by size, follow from the sets of faces they cover, whatever was asked "
    "before. Activities whose territories overlap are rejected and only those, as are several global datasets for one "
    "thing.",
    "all arrangements of the regions over the faces of the globe within the bounds, all queries and pairs of queries",
    "Tests use a few real countries; the guarantee is about every arrangement and about queries that share cached state.",
    [LOC + "_topology.py", LOC + "validation.py"],
    [("Topology", LOC + "_topology.py"), ("no_overlaps", LOC + "validation.py")],
    "Territories are sets whose membership bits are solver booleans; the topology code runs on them and the solver "
    "compares each answer with set algebra for every arrangement at once.",
    over=("inputs", "histories"))

add("C16", "Global datasets become what the regional ones leave",
    "A global activity that has regional alternatives becomes the rest-of-world dataset, its production volume reduced by "
    "theirs and not below zero; without regional alternatives, or as a market group, it stays global, and two global datasets "
    "are rejected. Rest-of-world markets are dropped exactly when they have no production volume, global ones when regional "
    "ones exist as well, and the documented fixes (whitelisted markets, confidential datasets, gas pipeline) touch nothing "
    "else.",
    "all names, kinds, locations, amounts and production volumes of the datasets within the bounds",
    "Grouping and volumes depend on several datasets at a time; tests use one fixed group.",
    [LOC + "rest_of_world.py", LOC + "markets.py", LOC + "market_groups.py", LOC + "cleanup.py"],
    [("relabel_global_to_row", LOC + "rest_of_world.py"), ("drop_zero_pv_row_datasets", LOC + "rest_of_world.py"),
     ("delete_global_with_zero_pv_when_regional_present", LOC + "markets.py")],
    "Names, kinds and locations are symbolic strings, volumes symbolic numbers; deletion and relabelling are compared "
    "with the stated conditions in both directions.")

add("C17", "Markets are supplied by the activities inside their territory",
    "Every market lists as suppliers exactly the activities that make its product inside its territory, where "
    "rest-of-world stands for what the other markets of the product (or the other activities of the same name) leave; a "
    "global or "
    "rest-of-world supplier belongs to the market that covers it. Each entry carries the supplier's code, product and "
    "production volume; overlapping markets are rejected, recycled content is supplied by its burden-free activity, and "
    "nothing else changes.",
    "all territories, amounts and production volumes of the markets and suppliers within the bounds",
    "Which supplier belongs to which market depends on the arrangement of all territories; tests have a few real places.",
    [LOC + "markets.py", LOC + "_topology.py"],
    [("apportion_market_suppliers_to_consumers", LOC + "markets.py"), ("add_suppliers_to_markets", LOC + "markets.py"),
     ("add_recycled_content_suppliers_to_markets", LOC + "markets.py")],
    "Territories are symbolic sets of faces; the lists of suppliers the code makes are compared with set inclusion by "
    "the solver for every arrangement at once.")

add("C18", "Market inputs follow the production volumes of their suppliers",
    "The inputs of a market from its suppliers are proportional to their production volumes and add up to the market's "
    "output; suppliers without production get no input, a single supplier takes everything. The production volume of a "
    "market is the sum of its suppliers', less what is taken over activity links, and never negative. Split consumer inputs "
    "keep their uncertainty scaled, and nothing else changes.",
    "all production volumes and amounts, zero included, all uncertainty kinds, numbers of suppliers within the bounds",
    "Shares, zeros and signs interact; tests use fixed volumes.",
    [LOC + "markets.py", TR + "uncertainty/__init__.py"],
    [("allocate_suppliers", LOC + "markets.py"), ("update_market_production_volumes", LOC + "markets.py")],
    "The functions run on symbolic volumes and amounts; the solver compares each input with its share and the total with "
    "the output.")

add("C19", "Market groups are filled without gaps or overlaps",
    "A market group is supplied by the largest market groups and markets of its product that lie inside its territory, "
    "without overlaps, and no market inside is left out; groups in groups are never listed with what they contain. Inputs of groups follow "
    "production volumes, which are the sums of their suppliers'. A group never supplies itself, and everything else is kept.",
    "all territories, amounts and production volumes of the groups and markets within the bounds",
    "Nesting and partial overlap of groups is a matter of arrangement; tests have a few real places.",
    [LOC + "market_groups.py", LOC + "_topology.py", LOC + "markets.py"],
    [("link_market_group_suppliers", LOC + "market_groups.py"), ("update_market_production_volumes", LOC + "markets.py")],
    "Territories are symbolic sets of faces; suppliers of groups are compared with inclusion and disjointness by the "
    "solver for every arrangement at once.")

add("C20", "Consumers are linked to the markets of their territory",
    "An input without a link is linked to the largest markets and market groups inside the consumer's territory without "
    "overlaps or gaps, split by their production volumes so that the parts add up to the input; if there is none inside, "
    "to the smallest one that covers the consumer, unchanged. Inputs that have a link already, other exchanges and other datasets stay as they "
    "were, missing suppliers are rejected, and recycled content is linked to the one activity that makes it.",
    "all territories, amounts, uncertainty kinds and production volumes within the bounds",
    "The choice depends on the arrangement of all territories and on volumes of zero; tests have a few real places.",
    [LOC + "linking.py", LOC + "markets.py", LOC + "_topology.py"],
    [("link_consumers_to_markets", LOC + "linking.py"),
     ("link_consumers_to_recycled_content_activities", LOC + "linking.py")],
    "Territories are symbolic sets of faces; the links made on each path are compared with the stated conditions over "
    "sets and volumes by the solver.")

add("C21", "Codes identify datasets, and only the unlinked is removed",
    "The code of a dataset depends on its name, reference product, unit, location and dates and nothing else, regardless "
    "of case; datasets that agree in them are rejected and only those. The reference product exchange carries the "
    "dataset's code, multi-output datasets are rejected, and exactly the inputs from the technosphere without a code are deleted.",
    "all combinations of equal, different, missing and differently written attributes; all types and codes of exchanges "
    "within the bounds",
    "Tests compare two or three fixed datasets.",
    [TR + "identifying.py", TR + "utils.py", LOC + "linking.py"],
    [("add_unique_codes", TR + "identifying.py"), ("activity_hash", TR + "utils.py"),
     ("add_reference_product_codes", LOC + "linking.py"), ("log_and_delete_unlinked_exchanges", LOC + "linking.py")],
    "Attributes are solver-chosen values and types symbolic strings; acceptance, codes and deletions are compared with "
    "the stated conditions on every path.")

add("C22", "Consequential markets only use their most modern suppliers",
    "In the consequential model a market or market group keeps exactly the suppliers with the most modern technology "
    "level present (new, modern, current, old, outdated), in order, and is rejected if no supplier has such a level; undefined levels of "
    "transforming activities become current before. Databases in which a byproduct has no other activity that makes it as "
    "reference product are rejected, and nothing else changes.",
    "all technology levels, types and names of the datasets and suppliers within the bounds",
    "Tests have one or two fixed lists of suppliers.",
    [CON + "market_linking.py", CON + "technology_levels.py", CON + "byproducts.py"],
    [("prune_suppliers_by_technology_level", CON + "market_linking.py"),
     ("switch_undefined_to_current", CON + "technology_levels.py"),
     ("ensure_byproducts_have_alternative_production", CON + "byproducts.py")],
    "Levels, types and names are symbolic strings; which suppliers stay, which levels change and which databases are "
    "rejected is compared with conditions over them by the solver.")

add("C23", "Constrained markets trade products with the activities they link to",
    "For every conditional exchange, the exchange becomes an input of its market, the reference product of the activity it links "
    "to becomes an input, and that activity's only input of the constrained product becomes its reference product, each negated with "
    "its uncertainty and formula; without such an input the database is rejected. Links of other exchanges to these "
    "activities are removed and no others. Activities with several reference products become one "
    "activity per product with the others dropped. Everything else stays as it was.",
    "all amounts, uncertainty kinds, names, types and link targets of the exchanges within the bounds",
    "Tests have one constrained market with fixed amounts and no uncertainty.",
    [CON + "constrained_markets.py", CON + "combined.py", CUT + "combined.py"],
    [("handle_constrained_markets", CON + "constrained_markets.py"),
     ("delete_activity_links_to_constrained_markets", CON + "constrained_markets.py"),
     ("split_combined_production", CON + "combined.py")],
    "The functions are executed on databases with symbolic types, names, links and amounts; every exchange of the "
    "result is compared with the stated change of the input.")

add("C30", "The cutoff system model gives a linked single-output database",
    "Applying the cutoff configuration to a valid database gives datasets with one reference product of one unit and a "
    "unique code, one for each product of each activity; every input has the code of a dataset that makes its product, "
    "and transforming activities are supplied by markets only, except through activity links and recycled content. Inputs of a market sum "
    "to its product, in proportion to the production volumes inside its territory, net of activity links. Inputs and emissions per unit of product are those "
    "of the allocation rule for the activity.",
    "all amounts, prices and production volumes of the databases within the bounds",
    "The transformations interact; tests run them one by one or on a few complete datasets without comparing the result.",
    ["ocelot/configuration.py", CUT + "__init__.py", LOC + "__init__.py", TR + "utils.py"],
    [("cutoff_config", "ocelot/configuration.py"), ("link_markets_by_pv", LOC + "__init__.py"),
     ("cutoff_allocation", CUT + "allocation.py")],
    "The whole configuration is executed on symbolic databases and the final database is compared with closed-form "
    "amounts and links.", over=("inputs",), observe=["ocelot/configuration.py"])

add("C32", "The consequential system model gives a linked database",
    "Applying the consequential configuration to a valid database gives datasets with one reference product of one unit "
    "and a unique code; every input has the code of a dataset that makes its product, and transforming activities are supplied by "
    "markets. Inputs of markets and market groups sum to their product; markets take it from the suppliers with the most modern technology in their territory, in "
    "proportion to production volume. Inputs, emissions and byproducts are per unit of product, and products made "
    "together are split.",
    "all amounts, production volumes and technology levels of the databases within the bounds",
    "No test runs the configuration on a database with several suppliers, places or technology levels.",
    ["ocelot/configuration.py", CON + "__init__.py", LOC + "__init__.py", TR + "utils.py"],
    [("consequential_config", "ocelot/configuration.py"),
     ("link_markets_by_technology_level", CON + "__init__.py")],
    "The whole configuration is executed on symbolic databases, with technology levels as symbolic strings, and the "
    "final database is compared with closed-form amounts and links.", over=("inputs",), observe=["ocelot/configuration.py"])

add("C24", "A model run applies every function of its configuration once, in order",
    "A system model passes the extracted data through every function of its configuration, however lists and collections "
    "are nested, exactly once and in order, and returns the last result; functions for single datasets see exactly the datasets "
    "that pass their filter and their results take the place of the dataset. The results of the functions chosen by the "
    "save strategy, the followed datasets and the final result are saved, the log names each function with its numbers of datasets, and invalid functions are "
    "rejected before anything is extracted. An interrupted run deletes its output directory and nothing else; a failed run keeps it.",
    "all nestings, functions, dataset values, save strategies and interruption points within the bounds",
    "The tests run a handful of flat configurations; which functions are skipped, repeated or saved depends on nesting, on "
    "filters, on the strategy and on where a run stops.",
    ["ocelot/model.py", "ocelot/collection.py", "ocelot/wrapper.py", "ocelot/utils.py", "ocelot/results.py"],
    [("apply_transformation and system_model", "ocelot/model.py"),
     ("Collection as a function and as a sequence", "ocelot/collection.py"),
     ("TransformationWrapper", "ocelot/wrapper.py"),
     ("validate_configuration", "ocelot/utils.py")],
    "system_model, Collection and TransformationWrapper are executed on functions that multiply and add symbolic numbers, so the "
    "result identifies which functions were applied to which dataset and in which order; the index of the function that "
    "is interrupted or fails is symbolic, and what is saved, logged and deleted is recorded by stand-ins.",
    over=("configurations", "inputs", "fault_sequences"), observe=["ocelot/model.py"])

add("C25", "Stale cached data is never used and only old reports are deleted",
    "Extracted data is taken from the cache only if the cache is newer than the source directory and everything visible in it, "
    "and was made by the same release from the same directory; otherwise the source is extracted again and cached. Cleaning up deletes exactly the "
    "report directories older than a week. Every run gets its own new writable output directory or is rejected, and save "
    "strategies choose exactly the documented functions.",
    "all modification and creation times, numbers of files, missing permissions and save strategies within the bounds",
    "Tests create a file or two now; staleness and age depend on orders of times that tests cannot produce.",
    ["ocelot/filesystem.py", "ocelot/io/__init__.py", "ocelot/io/cleanup.py", "ocelot/results.py"],
    [("check_cache_directory and get_cache_filepath_for_data_path", "ocelot/filesystem.py"),
     ("OutputDir", "ocelot/filesystem.py"),
     ("extract_directory", "ocelot/io/__init__.py"),
     ("cleanup_data_directory", "ocelot/io/cleanup.py"),
     ("SaveStrategy", "ocelot/results.py")],
    "The functions are executed on a model of the file system whose times are symbolic reals; the decisions to use, write or "
    "delete are compared with conditions over these times.", over=("inputs", "histories"), observe=["ocelot/filesystem.py"])

add("C26", "The report lists every function with what it changed",
    "The report of a model run lists every function of the configuration once and in order, with the number of datasets after it. "
    "Every row that a function logs is listed under this function and has one entry per column of its table, and everything "
    "logged can be stored as JSON. Functions that change technology levels, constrained markets and activity links, or that look for missing properties, list "
    "exactly what they changed or found. The log of a run lists this run only: later runs of the same process leave it as it is.",
    "all amounts, signs, activity links, technology levels and properties of the databases within the bounds",
    "No test reads the report of a model run; rows are only logged for unusual data.",
    ["ocelot/report.py", "ocelot/logger.py", "ocelot/model.py", "ocelot/configuration.py", CON + "technology_levels.py",
     CON + "constrained_markets.py", TR + "validation.py"],
    [("HTMLReport", "ocelot/report.py"),
     ("logging of function metadata and table elements", "ocelot/logger.py"),
     ("rows of the consequential functions", CON + "constrained_markets.py")],
    "system_model runs the three shipped configurations on symbolic databases with the log files and the page kept in memory; "
    "the page is compared with the metadata of the functions, and the rows with what changed.", over=("inputs",),
    observe=["ocelot/report.py"])

add("C27", "A Brightway2 database has the matrix of the model's datasets",
    "The Brightway2 database has one activity per dataset with the same code, location, dates and other fields, and per exchange the "
    "same amount: reference products as production, inputs as inputs of the activity that they are linked to, byproducts "
    "as substitution or production of that activity, and emissions and resources of the flow of the same compartment. Nothing but refinery gas inputs "
    "and dropped products is left out, the datasets themselves are not changed, and nothing is written if an exchange of the final model "
    "is unlinked or the database exists. The databases that the shipped models produce can be converted.",
    "all amounts, exchange types, links and databases within the bounds",
    "The converter has no tests, and an exchange lost or turned around changes every footprint silently.",
    ["ocelot/io/brightway2.py", "ocelot/transformations/consequential/__init__.py", CUT + "__init__.py"],
    [("BrightwayConverter", "ocelot/io/brightway2.py"),
     ("import_into_brightway2", "ocelot/io/brightway2.py")],
    "The converter runs on datasets with symbolic amounts, and on what the cutoff and consequential models make of symbolic databases; "
    "the technosphere matrix that Brightway2 would build from its output is compared with the one of the datasets.",
    over=("inputs",), observe=["ocelot/io/brightway2.py"])

add("C28", "Extraction reads exactly what the ecospold2 file says",
    "Every activity dataset of every ecospold2 file becomes one dataset with the fields, parameters, exchanges and properties of the "
    "file in its order, each number, formula, variable, activity link, pedigree score, production volume and uncertainty from its own element. "
    "Types, technology levels, access restrictions, byproduct classifications and exchange groups are translated as documented. The extracted data always fits the internal schema, and a directory gives "
    "all of its files and nothing else.",
    "all numbers, optional fields, codes, groups and combinations of uncertainties within the bounds",
    "The tests extract a few fixture files; most optional fields and codes appear in none of them.",
    ["ocelot/io/extract_ecospold2.py", "ocelot/io/ecospold2_meta.py", "ocelot/io/validate_internal.py"],
    [("extract_ecospold2_dataset and its helpers", "ocelot/io/extract_ecospold2.py"),
     ("extract_ecospold2_directory", "ocelot/io/extract_ecospold2.py"),
     ("translation tables", "ocelot/io/ecospold2_meta.py")],
    "generic_extractor runs on trees of elements whose numbers and texts are symbolic, behind the interface of lxml.objectify; the "
    "result is compared with the tree, and counterexamples are replayed by writing the XML file and reading it with lxml.",
    over=("inputs",), observe=["ocelot/io/extract_ecospold2.py"])

add("C29", "Invalid databases are rejected and valid ones pass unchanged",
    "Repeated ids, markets without exactly one reference product, markets that consume their own product without an activity link, "
    "products without production volume and activities that still make several products stop a run; all other databases pass these functions "
    "unchanged. The internal schema accepts the documented format and rejects missing, unknown and mistyped fields. The accessors for "
    "production volumes, products, properties, parameters and uncertainties find exactly what the dataset has.",
    "all types, classifications, names, links and amounts, and every single wrong field, within the bounds",
    "Each test breaks a single database in one way; a validator that misses a case lets a wrong model through.",
    [TR + "validation.py", "ocelot/io/validate_internal.py", "ocelot/data_helpers.py", TR + "utils.py"],
    [("validators", TR + "validation.py"), ("dataset_schema", "ocelot/io/validate_internal.py"),
     ("accessors", "ocelot/data_helpers.py"), ("iterators and selections of exchanges", TR + "utils.py")],
    "The validators run on databases whose types, names and classifications are symbolic texts; whether they raise is compared "
    "with a condition over these. One field of the schema at a time is missing, unknown or wrong.", over=("inputs",),
    observe=[TR + "validation.py"])

add("C33", "The command line does what was asked, validation reports invalid files",
    "Each command of ocelot-cli calls its function once with exactly the directory, configuration, schema, save strategy, followed file "
    "and report option given, and nothing else; an interruption ends the program with status 1. Validation of a directory reports no errors "
    "exactly if every extracted dataset has the internal format and otherwise logs invalid datasets only; validation against a schema "
    "names exactly the spold files that are invalid. Directories without files are valid.",
    "all commands, combinations of options and arguments, and all combinations of valid and invalid files within the bounds",
    "The command line and the validation of directories have no tests at all.",
    ["ocelot/bin/ocelot_cli.py", "ocelot/io/validate_ecospold2.py"],
    [("main", "ocelot/bin/ocelot_cli.py"), ("validate_directory, validate_directory_against_xsd", "ocelot/io/validate_ecospold2.py")],
    "main runs with symbolic parsed arguments, and on whole command lines, against recorders for the commands; the validation functions run "
    "on every feasible combination of valid and invalid datasets or files.", over=("inputs",),
    observe=["ocelot/bin/ocelot_cli.py", "ocelot/io/validate_ecospold2.py"])

add("C34", "Tables of the report list exactly what each transformation changed",
    "Every transformation that announces a table writes one row per change it makes - link dropped or redirected, exchange removed, flipped, "
    "zeroed or renamed, dataset created, deleted or relabelled, volume assigned or updated, supplier linked, formula repaired or deleted, "
    "error met - with the values its columns announce, and no row where nothing was changed.",
    "all combinations of types, classifications, links, locations, amounts and volumes within the bounds",
    "The tests check what functions change, hardly ever what they report; the report is how users audit a system model.",
    [CUT + "cleanup.py", CUT + "markets.py", CUT + "wastes.py", CUT + "allocation.py", CUT + "combined.py",
     TR + "consequential/constrained_markets.py", TR + "consequential/technology_levels.py", TR + "activity_links.py",
     TR + "locations/linking.py", TR + "locations/market_groups.py", TR + "locations/markets.py", TR + "locations/rest_of_world.py",
     TR + "parameterization/implicit_references.py", TR + "parameterization/known_ecoinvent_issues.py",
     TR + "parameterization/production_volumes.py", TR + "parameterization/python_compatibility.py",
     TR + "parameterization/recalculation.py", TR + "production_volumes.py", TR + "utils.py", TR + "validation.py"],
    [("report rows of the cutoff model", CUT + "cleanup.py"), ("report rows of linking", TR + "locations/linking.py"),
     ("report rows of parameter repairs", TR + "parameterization/python_compatibility.py")],
    "Each of the 35 reporting functions runs on small symbolic databases with a handler on the report's logger; a row is expected under a "
    "condition over the inputs, and the entries are compared with what the columns announce.", over=("inputs",),
    observe=[TR + "utils.py", TR + "locations/markets.py"])

NA = []
