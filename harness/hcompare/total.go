package hcompare

import "github.com/CrowdStrike/gql/zzverif/nd"

// ---- C17: every scenario of the other properties, judged for robustness only.

// robust runs a scenario with at most 2 members per list (thorough: as in the other property).
func robust(f func() *scn) {
	small = !nd.Deep()
	f().total()
}

// H_C17_C02_type: Bounds: those of H_C02_type, with at most 2 members per list (thorough: all).
func H_C17_C02_type() { robust(scFieldType) }

// H_C17_C02_many: Bounds: those of H_C02_many, with at most 2 members per list (thorough: all).
func H_C17_C02_many() { robust(scFieldTypes) }

// H_C17_C03_arg: Bounds: those of H_C03_arg, with at most 2 members per list (thorough: all).
func H_C17_C03_arg() { robust(scArgType) }

// H_C17_C03_input: Bounds: those of H_C03_input, with at most 2 members per list (thorough: all).
func H_C17_C03_input() { robust(scInputType) }

// H_C17_C03_directive: Bounds: those of H_C03_directive, with at most 2 members per list (thorough: all).
func H_C17_C03_directive() { robust(scDirArgType) }

// H_C17_C03_many: Bounds: those of H_C03_many, with at most 2 members per list (thorough: all).
func H_C17_C03_many() { robust(scInTypes) }

// H_C17_C13_one: Bounds: those of H_C13_one, with at most 2 members per list (thorough: all).
func H_C17_C13_one() { robust(func() *scn { return scDep(1) }) }

// H_C17_C14_defaults: Bounds: those of H_C14_defaults, with at most 2 members per list (thorough: all).
func H_C17_C14_defaults() { robust(scDefaults) }

// H_C17_C14_descriptions: Bounds: those of H_C14_descriptions, with at most 2 members per list (thorough: all).
func H_C17_C14_descriptions() { robust(scDescs) }

// H_C17_C10_defs: Bounds: those of H_C10_defs, with at most 2 members per list (thorough: all).
func H_C17_C10_defs() { robust(scDirDefs) }

// H_C17_C10_locations: Bounds: those of H_C10_locations, with at most 2 members per list (thorough: all).
func H_C17_C10_locations() { robust(scLocations) }

// H_C17_C10_args: Bounds: those of H_C10_args, with at most 2 members per list (thorough: all).
func H_C17_C10_args() { robust(scDirArgs) }

// H_C17_C10_mix: Bounds: those of H_C10_mix, with at most 2 members per list (thorough: all).
func H_C17_C10_mix() { robust(scDirMix) }

// H_C17_C11_args: Bounds: those of H_C11_args, with at most 2 members per list (thorough: all).
func H_C17_C11_args() { robust(scAppliedArgs) }

// H_C17_C11_lists: Bounds: those of H_C11_lists, with at most 2 members per list (thorough: all).
func H_C17_C11_lists() { robust(scAppliedLists) }

// H_C17_C11_repeated: Bounds: those of H_C11_repeated, with at most 2 members per list (thorough: all).
func H_C17_C11_repeated() { robust(scRepeated) }

// H_C17_C12_block: Bounds: those of H_C12_block, with at most 2 members per list (thorough: all).
func H_C17_C12_block() { robust(func() *scn { return scOps(false, 1) }) }

// H_C17_C12_extensions: Bounds: those of H_C12_extensions, with at most 2 members per list (thorough: all).
func H_C17_C12_extensions() { robust(func() *scn { return scOps(true, 2) }) }

// H_C17_C12_both: Bounds: those of H_C12_both, with at most 2 members per list (thorough: all).
func H_C17_C12_both() { robust(scOpsBoth) }

// H_C17_C04_types: Bounds: those of H_C04_types, with at most 2 members per list (thorough: all).
func H_C17_C04_types() { robust(scTypes) }

// H_C17_C04_both: Bounds: those of H_C04_both, with at most 2 members per list (thorough: all).
func H_C17_C04_both() { robust(scTypesBoth) }

// H_C17_C05_fields: Bounds: those of H_C05_fields, with at most 2 members per list (thorough: all).
func H_C17_C05_fields() { robust(scFields) }

// H_C17_C06_args: Bounds: those of H_C06_args, with at most 2 members per list (thorough: all).
func H_C17_C06_args() { robust(scArgs) }

// H_C17_C07_inputs: Bounds: those of H_C07_inputs, with at most 2 members per list (thorough: all).
func H_C17_C07_inputs() { robust(scInputs) }

// H_C17_C08_values: Bounds: those of H_C08_values, with at most 2 members per list (thorough: all).
func H_C17_C08_values() { robust(scEnum) }

// H_C17_C09_union: Bounds: those of H_C09_union, with at most 2 members per list (thorough: all).
func H_C17_C09_union() { robust(scUnion) }

// H_C17_C09_interfaces: Bounds: those of H_C09_interfaces, with at most 2 members per list (thorough: all).
func H_C17_C09_interfaces() { robust(scInterfaces) }

// H_C17_C15_roles: Bounds: those of H_C15_roles, with at most 2 members per list (thorough: all).
func H_C17_C15_roles() { robust(scRoles) }

// H_C17_C15_several: Bounds: those of H_C15_several, with at most 2 members per list (thorough: all).
func H_C17_C15_several() { robust(scSeveral) }

// H_C17_C15_blocks: Bounds: those of H_C15_blocks, with at most 2 members per list (thorough: all).
func H_C17_C15_blocks() { robust(scBlocks) }

// H_C17_C15_kitchen: Bounds: those of H_C15_kitchen, with at most 2 members per list (thorough: all).
func H_C17_C15_kitchen() { robust(scKitchen) }
