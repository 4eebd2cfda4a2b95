// Not linked into anything: instantiates the header templates of tinygettext,
// so that the analyses see their bodies.
#include "tinygettext/dictionary.hpp"
#include "tinygettext/dictionary_manager.hpp"
#include "tinygettext/file_system.hpp"
#include "tinygettext/iconv.hpp"
#include "tinygettext/language.hpp"
#include "tinygettext/log.hpp"
#include "tinygettext/log_stream.hpp"
#include "tinygettext/plural_forms.hpp"
#include "tinygettext/po_parser.hpp"
#include "tinygettext/tinygettext.hpp"
#include "tinygettext/unix_file_system.hpp"

namespace tgsa_instances {

void message(const std::string&, const std::vector<std::string>&);
void message_ctxt(const std::string&, const std::string&, const std::vector<std::string>&);

void instances(tinygettext::Dictionary& d)
{
  d.foreach(&message);
  d.foreach_ctxt(&message_ctxt);
}

} // namespace tgsa_instances
