S12 = 'NRWAL/default_configs/osw_2019/semi_12MW_2017.yaml'
J8 = 'NRWAL/default_configs/osw_2015/jacket_8MW_2015.yaml'
M25 = 'NRWAL/default_configs/osw_2019/monopile_15MW_2025.yaml'
AG = 'NRWAL/default_configs/osw_2019/standard_aggregation.yaml'
H = 'NRWAL/default_configs/hydrogen/wind_lcoh_using_rate.yaml'
T = 'NRWAL/analysis_library/osw_2019/turbine.yaml'
ITEMS = [
    ('C19', 'pslt rating', 1, [(S12, 'pslt_12MW', 'pslt_10MW')]),
    ('C19', 'fixed array', 1, [(S12, 'array::floating', 'array::fixed')]),
    ('C19', 'spar avail', 1, [(S12, 'avail_semi', 'avail_spar')]),
    ('C19', 'floating technical', 1, [(J8, 'technical_fixed', 'technical_floating')]),
    ('C19', 'cost reduction year', 1, [(M25, 'cost_reductions::ncf_2025', 'cost_reductions::ncf_2020')]),
    ('C19', 'cost reduction kind', 1, [(M25, 'cost_reductions::fixed', 'cost_reductions::floating')]),
    ('C19', 'wrong reduction', 1, [(M25, 'cost_reductions::array_cable_2025', 'cost_reductions::export_cable_2025')]),
    ('C19', 'reduction sign', 1, [(M25, '(1 - cost_reductions::opex', '(1 + cost_reductions::opex')]),
    ('C19', 'no reduction', 1, [(M25, ' * (1 - cost_reductions::maintenance_2025)', '')]),
    ('C19', 'edition', 1, [(S12, 'osw_2019::semi::install_12MW', 'osw_2015::semi::install_12MW')]),
    ('C19', 'flag off', 1, [(S12, 'interp_extrap_year:\n    True', 'interp_extrap_year:\n    False')]),
    ('C19', 'flag text', 1, [(S12, 'interp_extrap_power:\n    True', 'use_nearest_power:\n    True')]),
    ('C19', 'small rating variant', 1, [(J8, 'outfitting_lt_8MW', 'outfitting')]),
    ('C19', 'large rating variant', 1, [(S12, 'anchors_gt10MW', 'anchors')]),
    ('C19', 'constant differs', 1, [(S12, '0.044', '0.04')]),
    ('C19', 'formula differs', 1, [(S12, 'lease_price + development + proj_mgmt + subcomponents', 'lease_price + development + subcomponents')]),
    ('C19', 'aggregation differs', 1, [(AG, 'decomissioning * (install - pslt)', 'decomissioning * install')]),
    ('C19', 'pointer to other entry', 1, [(S12, './standard_aggregation.yaml::procurement_cont', './standard_aggregation.yaml::install_cont')]),
    ('C19', 'jacket lattice', 1, [(J8, 'jacket::transition_piece', 'monopile::transition_piece')]),
    ('C19', 'K reordered sum', 0, [(S12, 'lease_price + development + proj_mgmt + subcomponents', 'subcomponents + development + proj_mgmt + lease_price')]),
    ('C19', 'K true', 0, [(S12, 'interp_extrap_year:\n    True', 'interp_extrap_year: true')]),
    ('C19', 'K quoted', 0, [(S12, '  osw_2015::losses::avail_semi', "  'osw_2015::losses::avail_semi'")]),
    ('C20', 'typo ref', 1, [(H, 'hydrogen::water::annual_water_cost', 'hydrogen::water::annual_water_costs')]),
    ('C20', 'typo group', 1, [(S12, 'osw_2015::maintenance::semi', 'osw_2015::maintenence::semi')]),
    ('C20', 'typo pointer', 1, [(S12, './standard_aggregation.yaml::proj_comp', './standard_aggregation.yaml::projcomp')]),
    ('C20', 'typo pointer file', 1, [(S12, './standard_aggregation.yaml::lcoe', './standard_agregation.yaml::lcoe')]),
    ('C20', 'cycle', 1, [(AG, 'substructure + foundation', 'substructure + foundation + electrical'), (AG, 'array + export + grid', 'array + export + grid + 0 * support')]),
    ('C20', 'cycle through config', 1, [(H, 'plant_capacity_mw:\n  capacity\n', 'plant_capacity_mw:\n  capacity + 0 * electrolyzer_size_mw\n')]),
    ('C20', 'duplicate key', 1, [(H, 'fcr:\n  0.049\n', 'fcr:\n  0.049\nwater_cost_multiplier:\n  2\n')]),
    ('C20', 'broken formula', 1, [(T, '0.86 * hz_turbine_factor', '0.86 hz_turbine_factor')]),
    ('C20', 'unbalanced', 1, [(T, '1300 * (1. - 0.056) * turbine_capacity * 1000.0 * 0.14', '1300 * (1. - 0.056 * turbine_capacity * 1000.0 * 0.14')]),
    ('C20', 'not numpy', 1, [(T, '0.86 * hz_turbine_factor', '0.86 * math.floor(hz_turbine_factor)')]),
    ('C20', 'unknown numpy', 1, [(T, '0.86 * hz_turbine_factor', '0.86 * np.flor(hz_turbine_factor)')]),
    ('C20', 'library self reference', 1, [(T, '0.14 * num_turbines', '0.14 * num_turbines + 0 * tower')]),
    ('C20', 'variables text', 1, [('NRWAL/analysis_library/marine_energy/variables.yaml', ':', ': 1 +')]),
    ('C20', 'K comment', 0, [(T, 'tower:\n', '# tower cost\ntower:\n')]),
    ('C20', 'K min', 0, [(T, '0.86 * hz_turbine_factor', '0.86 * np.minimum(hz_turbine_factor, hz_turbine_factor)')]),
]
