SETTINGS = {'DENORM_BULK_UNSAFE_TRIGGERS': True, 'DENORM_FLUSH_AFTER_REQUEST': True}
