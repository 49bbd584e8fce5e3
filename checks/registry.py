CHECKS = {
    'C01': 'core_addresses',
    'C02': 'core_padding',
    'C03': 'core_regions',
    'C04': 'core_literals',
    'C05': 'core_labels',
    'C06': 'core_names',
    'C07': 'core_formulas',
    'C08': 'core_tokens',
    'C09': 'core_data',
    'C10': 'core_include',
    'C11': 'core_macros',
    'C12': 'core_repeat',
    'C13': 'core_case',
    'C14': 'core_errors',
    'C15': 'isolation',
    'C16': 'core_elf',
    'C17': 'core_cli',
    'C18': 'core_pack',
    'C19': 'each_cpu',
    'C20': 'cpu_mos6502',
    'C21': 'cpu_lr35902',
    'C22': 'cpu_z80',
    'C23': 'cpu_intel8086',
    'C24': 'cpu_mc68000',
    'C25': 'cpu_mips32',
    'C26': 'cpu_thumb',
    'C27': 'cpu_powerpc',
    'C28': 'cpu_x86',
    'C30': 'plat_gameboy',
    'C31': 'plat_nes',
    'C32': 'plat_tiles',
    'C33': 'plat_sums',
    'C34': 'plat_psx',
    'C35': 'plat_elf',
    'C36': 'plat_names',
    'C40': 'operand_formulas',
}
