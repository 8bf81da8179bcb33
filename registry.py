"""property id -> (module under checks/, evidence level)"""
CHECKS = {
    'C02': ('parse', 'other'),
    'C03': ('parse', 'other'),
    'C04': ('parse', 'other'),
    'C05': ('parse', 'other'),
    'C10': ('lazydrv', 'other'),
    'C11': ('lazydrv', 'other'),
    'C06': ('lazydrv', 'other'),
    'C07': ('lazydrv', 'other'),
    'C08': ('lazydrv', 'other'),
    'C12': ('lazydrv', 'other'),
    'C09': ('lazydrv', 'other'),
    'C13': ('lazydrv', 'other'),
    'C14': ('lazydrv', 'other'),
    'C15': ('lazydrv', 'other'),
    'C16': ('lazydrv', 'other'),
    'C17': ('lazydrv', 'other'),
    'C18': ('lazydrv', 'other'),
    'C19': ('lazydrv', 'other'),
    'C20': ('lazydrv', 'other'),
    'C21': ('xgrammar', 'other'),
    'C22': ('xgrammar', 'other'),
    'C23': ('lazydrv', 'other'),
}
