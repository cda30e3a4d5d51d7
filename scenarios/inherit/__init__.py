SETTINGS = {'INHERIT_SWAPPED_MODEL': 'inherit.Replacement'}
