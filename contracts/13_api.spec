// Answers of the web API.
fn sent(c Any, code Int, body Any): Err
iface "github.com/labstack/echo.Context.JSON" (c, code, i) (err)
  ensures sent: err == sent(c, code, i)
// an answer: the fields given, and whether all is well
def answer(c Any, code Int, m Map): Err = sent(c, code, box(helpers_ResponseMap, put(m, "ok", box(bool, code == 200))))
func "cmd/GoBCDiceAPI/helpers.JSONResponse" (c, statusCode, body) (err)
  props C19
  modifies body
  requires some: body is some
  ensures ok C19: err == answer(c, statusCode, old(body))
func "cmd/GoBCDiceAPI/helpers.JSONResponseError" (c, e) (err)
  props C19
  ensures error C19: err == answer(c, e.Code, put(emptyMap(), "message", box(string, e.Message)))
func "cmd/GoBCDiceAPI/helpers.JSONResponseArray" (c, statusCode, collection) (err)
  props C19
  ensures list C19: err == answer(c, statusCode, put(put(emptyMap(), "items", box(__helpers_ResponseMap, collection)), "count", box(int, len(collection))))
// what a model tells
def told(o Model): Map = switch o {
  Names => put(emptyMap(), "names", box(__list_SystemInfo, o.Names.Name));
  RootResponse => put(emptyMap(), "message", box(string, o.Message));
  Systems => put(emptyMap(), "systems", box(__string, o.Names));
  Version => put(put(emptyMap(), "api", box(string, o.Api)), "bcdice", box(string, o.Bcdice)) }
func "cmd/GoBCDiceAPI/helpers.JSONResponseObject" (c, statusCode, object) (err)
  props C19
  ensures model C19: err == answer(c, statusCode, told(object))
func "cmd/GoBCDiceAPI/models.NewRootResponse" () (r)
  props C19
  ensures message C19: r is RootResponse && r.Message == "Hello. This is GoBCDiceAPI."
func "cmd/GoBCDiceAPI/models.NewSystems" () (r)
  props C19
  ensures systems C19: r is Systems && r.Names == ["DiceBot"]
func "cmd/GoBCDiceAPI/models.NewNames" () (r)
  props C19
  ensures names C19: r is Names && len(r.Names.Name) == 1 && r.Names.Name[0].System == "DiceBot"
func "cmd/GoBCDiceAPI/controllers.(*RootController).getRoot" (controller, c) (err)
  props C19
  ensures root C19: err == answer(c, 200, put(emptyMap(), "message", box(string, "Hello. This is GoBCDiceAPI.")))
func "cmd/GoBCDiceAPI/controllers/v1.(*SystemsController).getSystems" (controller, c) (err)
  props C19
  ensures systems C19: err == answer(c, 200, put(emptyMap(), "systems", box(__string, ["DiceBot"])))
