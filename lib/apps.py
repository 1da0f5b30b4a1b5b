"""Running applications that make observations."""


async def launch(arb, app):
    """Run an application; what it raised isn't hidden by the arbiter."""

    raised = []

    async def wrapped(info):
        try:
            return await app(info)
        except Exception as exc:
            raised.append(exc)
            raise

    result = await arb.app(wrapped)
    if raised:
        raise raised[0]
    return result
