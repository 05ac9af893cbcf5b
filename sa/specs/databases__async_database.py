MODULE = "aiootp.databases.async_database"
OPAQUE = ("adelete_salt_file", "delete_salt_file", "Database", "AsyncDatabase", "Namespace")

from aiootp._paths import adelete_salt_file


class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
    _ProfileTokens = AsyncProfileTokens

    async def _adelete_profile_tokens(self):
        if hasattr(self, '_profile_tokens'):
            salt_path = self._profile_tokens._salt_path
            if salt_path.is_file():
                await adelete_salt_file(salt_path)
